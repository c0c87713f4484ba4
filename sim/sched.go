package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/vanclief/finmod/zzverifsim"
)

// Task is a simulated thread of control: the scenario, the tasks it starts and
// the goroutines the library starts. One runs at a time; the others wait for
// the scheduler.
type Task struct {
	id      int
	api     string // library call in progress
	steps   int
	quantum int // statements until the next decision; 0: no other task is there
	proc    *proc
	wake    chan struct{}
	done    bool
	dying   bool // its deferred calls run

	stopped  bool    // it waits for the scheduler
	blocked  bool    // it waits inside the runtime for another task
	resume   uintptr // the goroutine, when that wait is over
	waiting  bool    // it waits for a lock
	seen     int64   // events when it did so
	sleeping bool
	until    int64
	join     []*Task // it waits for the end of these
}

// proc is a simulated operating system process.
type proc struct {
	ended   bool // its tasks do not go on
	crashed bool
}

// A task that has the processor for itself is asked to stop again only after
// this many statements.
const longQuantum = 1 << 15

// How long a run in which nothing can go on waits for the runtime's timers.
const patience = 3 * time.Second

var (
	curProcessPid = 1
	runNumber     uint64
)

const maxTasks = 1 << 24

func (r *Run) newTask(api string, p *proc, f func()) *Task {
	t := &Task{id: len(r.tasks), api: api, proc: p, wake: make(chan struct{}), stopped: true}
	r.tasks = append(r.tasks, t)
	r.live = append(r.live, t)
	id := runNumber*maxTasks + uint64(t.id)
	on := runtime.VerifMarked()
	runtime.VerifMark(false) // the goroutine is not the library's
	go func() {
		<-t.wake
		runtime.VerifID(id)
		runtime.VerifMark(true)
		defer func() {
			runtime.VerifMark(false)
			t.done = true
			runtime.VerifSignal()
		}()
		r.mayGoOn(t)
		f()
	}()
	runtime.VerifMark(on)
	return t
}

// mayGoOn ends the task if its process or the run has ended.
func (r *Run) mayGoOn(t *Task) {
	if r.over || t.proc != nil && t.proc.ended {
		t.dying = true
		t.steps = 0
		runtime.Goexit()
	}
}

// schedule executes the run, main being its first task.
func (r *Run) schedule(main func()) {
	runNumber++
	first := r.newTask("", nil, main)
	last := -1
	for !first.done && !r.over {
		t := r.pick()
		if t == nil {
			break
		}
		if t.id != last {
			if len(r.tasks) > 1 {
				r.mix(uint64(t.id))
			}
			last = t.id
			if r.tracing && len(r.live) > 1 {
				r.logf("schedule: task %d runs (%s)", t.id, quantumText(t.quantum))
			}
		}
		r.step(t)
	}
	r.over = true
	r.unwind()
	for {
		if _, g := runtime.VerifReady(); g == 0 {
			break
		}
	}
}

// step lets a task run until it stops.
func (r *Run) step(t *Task) {
	r.cur = t
	r.events++
	t.stopped, t.waiting, t.sleeping, t.join = false, false, false, nil
	if t.resume != 0 {
		g := t.resume
		t.resume, t.blocked = 0, false
		runtime.VerifResume(g)
	} else {
		t.wake <- struct{}{}
	}
	runtime.VerifWait()
	switch {
	case t.done:
		for i, l := range r.live {
			if l == t {
				r.live = append(r.live[:i], r.live[i+1:]...)
				break
			}
		}
	case !t.stopped:
		t.blocked = true
	}
	r.collect()
}

// collect finds the tasks whose waits inside the runtime are over.
func (r *Run) collect() {
	for {
		id, g := runtime.VerifReady()
		if g == 0 {
			return
		}
		if id/maxTasks == runNumber {
			r.tasks[id%maxTasks].resume = g
		}
	}
}

func (r *Run) runnable(t *Task) bool {
	switch {
	case t.blocked:
		return t.resume != 0
	case t.proc != nil && t.proc.ended:
		return true // to its end
	case t.waiting:
		return r.events != t.seen
	case t.sleeping:
		return r.mono >= t.until
	case t.join != nil:
		for _, j := range t.join {
			if !j.done && !(j.proc != nil && j.proc.ended && j.blocked && j.resume == 0) {
				return false
			}
		}
	}
	return true
}

// pick draws the task that runs next and for how long.
func (r *Run) pick() *Task {
	var list [64]*Task
	for waited := time.Duration(0); ; {
		can := list[:0]
		for _, t := range r.live {
			if r.runnable(t) {
				can = append(can, t)
			}
		}
		if len(can) > 0 {
			t := can[0]
			t.quantum = 0
			if len(can) > 1 {
				t = can[r.src.N(len(can))]
			}
			for _, o := range r.live {
				if o != t && o.join == nil { // it can run now, or when t has done something
					t.quantum = r.drawQuantum()
					break
				}
			}
			return t
		}
		var first *Task // of those that sleep
		for _, t := range r.live {
			if !t.blocked && t.sleeping && (first == nil || t.until < first.until) {
				first = t
			}
		}
		if first != nil {
			r.advance(first.until - r.mono)
			continue
		}
		if waited >= patience {
			break
		}
		time.Sleep(time.Millisecond)
		waited += time.Millisecond
		for _, t := range r.live {
			t.seen--
		}
		r.collect()
	}
	api := ""
	for _, t := range r.live {
		if (t.blocked || t.waiting) && t.api != "" {
			api = t.api
			break
		}
	}
	if api == "" {
		panic("simulator error: nothing can run")
	}
	r.viol = &violation{"deadlock:" + api, fmt.Sprintf("%s waits for something that does not come", api)}
	return nil
}

// unwind brings the tasks to their end. Those that wait inside the
// runtime stay where they are.
func (r *Run) unwind() {
	for again := true; again; {
		again = false
		for _, t := range r.live {
			if !t.blocked || t.resume != 0 {
				t.quantum = 0
				r.step(t)
				again = true
				break
			}
		}
	}
}

// stop gives the processor back to the scheduler.
func (r *Run) stop(t *Task) {
	r.rest(t)
	r.mayGoOn(t)
}

func (r *Run) rest(t *Task) {
	t.stopped = true
	runtime.VerifMark(false)
	runtime.VerifSignal()
	<-t.wake
	runtime.VerifMark(true)
}

func yieldHook() {
	r := R
	if r == nil || !runtime.VerifMarked() {
		return
	}
	t := r.cur
	t.steps++
	if t.dying {
		if t.steps > stepBudget {
			t.steps = 0
			runtime.Goexit()
		}
		return
	}
	r.mayGoOn(t)
	if t.steps > stepBudget {
		t.steps = 0
		r.fail("no-progress:"+t.api, "%s executed %d statements without returning", t.api, stepBudget)
	}
	if r.crashIn > 0 && t.proc != nil {
		r.crashIn--
		if r.crashIn == 0 {
			r.crash("between two statements of " + t.api)
		}
	}
	if t.quantum > 0 {
		t.quantum--
		if t.quantum == 0 {
			r.npreempt++
			r.stop(t)
		}
	}
}

// writeHook runs while a map is being written; a task can be interrupted
// there, so that the runtime meets what it forbids, but not ended.
func writeHook() {
	r := R
	if r == nil {
		return
	}
	t := r.cur
	if t.quantum == 0 || t.dying || r.over || t.api == "" || !writtenByLibrary() {
		return
	}
	if r.src.Chance(1, 4) {
		r.npreempt++
		r.rest(t)
	}
}

// fatalHook runs where the runtime would end the process.
func fatalHook(s string) {
	if r := R; r != nil && r.cur.api != "" {
		r.fail("fatal:"+r.cur.api, "%s ends the process: fatal error: %s", r.cur.api, s)
	}
}

// writtenByLibrary says whether the map is written by a statement of the library.
func writtenByLibrary() bool {
	var pcs [16]uintptr
	frames := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs[:])])
	for {
		f, more := frames.Next()
		switch {
		case strings.HasPrefix(f.Function, "runtime."), strings.HasPrefix(f.Function, "internal/runtime/"):
		default:
			return strings.HasPrefix(f.Function, "github.com/vanclief/finmod/")
		}
		if !more {
			return false
		}
	}
}

// blockHook runs when a lock is taken already.
func blockHook() {
	r := R
	if r == nil || !runtime.VerifMarked() {
		runtime.Gosched()
		return
	}
	t := r.cur
	if t.dying {
		runtime.Goexit()
	}
	t.waiting, t.seen = true, r.events
	r.stop(t)
}

// sleepHook is time.Sleep.
func sleepHook(ns int64) {
	r := R
	if r == nil {
		return
	}
	t := r.cur
	if ns <= 0 || t.dying {
		return
	}
	t.sleeping, t.until = true, r.mono+ns
	r.stop(t)
}

// goHook starts a goroutine of the library.
func goHook(f func()) {
	r := R
	if r == nil {
		runtime.VerifMark(false)
		go f()
		runtime.VerifMark(true)
		return
	}
	t := r.cur
	if t.dying {
		return
	}
	api := t.api
	r.newTask(api, t.proc, func() {
		defer func() {
			if p := recover(); p != nil {
				r.panicked(api, p)
			}
		}()
		f()
	})
	if t.quantum == 0 {
		t.quantum = r.drawQuantum()
	}
}

func (r *Run) panicked(api string, p interface{}) {
	stack := ""
	if r.tracing {
		stack = "\n" + libFrames(string(debug.Stack()))
	}
	r.fail("panic:"+api, "%s panicked: %v%s", api, p, stack)
}

// drawQuantum draws how many statements a task may execute before the next
// decision; each run has its own granularity.
func (r *Run) drawQuantum() int {
	if r.grain == 0 {
		r.grain = 9 - r.src.N(9)
	}
	if r.src.Chance(7, 8) {
		return 1 + r.src.N(1<<uint(r.grain))
	}
	return longQuantum
}

func quantumText(q int) string {
	if q == 0 || q == longQuantum {
		return "until it stops"
	}
	return fmt.Sprintf("for %d statements", q)
}

// parallel runs the functions as tasks, one at a time, switching between them
// at statements of the library.
func (r *Run) parallel(fns ...func()) {
	t := r.cur
	var tasks []*Task
	for _, fn := range fns {
		tasks = append(tasks, r.newTask("", t.proc, fn))
	}
	r.await(t, tasks)
}

// twins runs f, now and then as two tasks of one process that both do it.
func twins(f func(*Run)) func(*Run) {
	return func(r *Run) {
		if r.src.Chance(1, 8) {
			r.parallel(func() { f(r) }, func() { f(r) })
			return
		}
		f(r)
	}
}

func (r *Run) await(t *Task, tasks []*Task) {
	t.join = tasks
	r.stop(t)
}

// process runs f as a simulated operating system process; it reports whether
// the process crashed. Its handles are gone afterwards, its files are not.
func (r *Run) process(f func()) (crashed bool) {
	curProcessPid++
	if curProcessPid > 0xffff {
		curProcessPid = 1
	}
	xidPid = curProcessPid
	xidCounter = uint32(r.src.N(1 << 24))
	t := r.cur
	p := &proc{}
	r.await(t, []*Task{r.newTask("", p, func() {
		defer func() { p.ended = true }()
		r.lib("package initialisation", zzverifsim.Reset)
		f()
	})})
	r.fs.frozen = true // what is left of the process can do nothing any more
	r.endTasks(p)
	r.crashIn = 0
	r.fs.endProcess()
	return p.crashed
}

// endTasks ends what the library has left running in a process.
func (r *Run) endTasks(p *proc) {
	t := r.cur
	for {
		var left []*Task
		for _, l := range r.live {
			if l.proc == p && (!l.blocked || l.resume != 0) {
				left = append(left, l)
			}
		}
		if len(left) == 0 {
			break
		}
		r.await(t, left)
	}
	for i := 0; i < len(r.live); {
		if l := r.live[i]; l.proc == p {
			r.live = append(r.live[:i], r.live[i+1:]...)
		} else {
			i++
		}
	}
}

// crash ends the simulated process where it stands.
func (r *Run) crash(where string) {
	r.crashIn = 0
	r.fs.crashIn = 0
	r.fs.frozen = true
	r.ncrash++
	r.fault("crash")
	r.logf("CRASH %s", where)
	t := r.cur
	if t.proc == nil {
		panic("simulator error: crash outside a simulated process")
	}
	t.proc.ended, t.proc.crashed = true, true
	r.mayGoOn(t)
}
