package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
	_ "unsafe" // linkname

	_ "github.com/rs/xid"
	"github.com/vanclief/finmod/zzverifsim"
)

// stepBudget bounds the statements one library call may execute.
const stepBudget = 2_000_000

// The parts of an ID that real hosts take from the outside.
//
//go:linkname xidCounter github.com/rs/xid.objectIDCounter
var xidCounter uint32

//go:linkname xidPid github.com/rs/xid.pid
var xidPid int

//go:linkname xidMachine github.com/rs/xid.machineID
var xidMachine []byte

type violation struct{ class, msg string }

func (v *violation) Error() string { return v.class + ": " + v.msg }

// Run is one simulated execution.
type Run struct {
	prop    string
	src     *Src
	tracing bool
	trace   []string
	viol    *violation
	acc     *Acc

	sig      uint64 // signature of the execution
	nfaults  int
	npreempt int
	ncrash   int

	clock    int64 // nanoseconds since 1970
	mono     int64 // nanoseconds, does not jump
	lastDate [3]int64
	cur      *Task
	tasks    []*Task // every task of the run, by id
	live     []*Task // those that have not ended
	over     bool    // the run has its verdict
	events   int64   // how often a task has run
	grain    int
	size     int
	crashIn  int // statements until the process dies; 0: never
	fs       *FS
}

// Acc accumulates what a worker has covered.
type Acc struct {
	Runs       int
	Nontrivial int
	Evals      int64
	Steps      int64
	Preempts   int64
	Crashes    int64
	SimNanos   int64
	Choices    int64
	Faults     map[string]int64
	Sigs       map[uint64]struct{}
	States     map[uint64]struct{}
	Known      map[string]int64
}

const setCap = 1_500_000

func newAcc() *Acc {
	return &Acc{Faults: map[string]int64{}, Sigs: map[uint64]struct{}{}, States: map[uint64]struct{}{}, Known: map[string]int64{}}
}

// R is the execution in progress; there is one at a time per process.
var R *Run

func installHooks() {
	zzverifsim.Hook = yieldHook
	time.VerifNow = nowHook
	sync.VerifBlock = blockHook
	sync.VerifPool = marked
	runtime.VerifGo = goHook
	runtime.VerifSleep = sleepHook
	runtime.VerifWriting = writeHook
	runtime.VerifFatal = fatalHook
	syscall.VerifFS = fsHooks{}
	os.Unsetenv("ZONEINFO")
}

func nowHook() (int64, int32, int64, bool) {
	r := R
	if r == nil || !runtime.VerifMarked() {
		return 0, 0, 0, false
	}
	sec := r.clock / 1e9
	ns := r.clock % 1e9
	if ns < 0 {
		sec, ns = sec-1, ns+1e9
	}
	return sec, int32(ns), r.mono, true
}

// lib makes one call into the library.
func (r *Run) lib(api string, f func()) {
	t := r.cur
	prevAPI, prevSteps := t.api, t.steps
	t.api, t.steps = api, 0
	defer func() {
		r.acc.Steps += int64(t.steps)
		t.api, t.steps = prevAPI, prevSteps
		if p := recover(); p != nil {
			r.panicked(api, p)
		}
	}()
	f()
	r.mayGoOn(t)
}

// libFrames keeps the library's lines of a stack trace.
func libFrames(stack string) string {
	var out []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "finmod/") && strings.HasPrefix(l, "github.com/") {
			if i := strings.IndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			out = append(out, "    at "+l)
		}
	}
	return strings.Join(out, "\n")
}

// fail ends the run with a violation.
func (r *Run) fail(class, format string, args ...interface{}) {
	if r.viol == nil {
		r.viol = &violation{class, fmt.Sprintf(format, args...)}
	}
	r.over = true
	runtime.Goexit()
}

func (r *Run) logf(format string, args ...interface{}) {
	if r.tracing {
		r.trace = append(r.trace, fmt.Sprintf(format, args...))
	}
}

// fault counts a fault that has struck.
func (r *Run) fault(kind string) {
	r.nfaults++
	r.acc.Faults[kind]++
	r.sig = hashStr(r.sig, kind)
	r.logf("fault: %s", kind)
}

func (r *Run) mix(x uint64) { r.sig = hash2(r.sig, x) }

// eval counts an evaluation of the oracle, with what was observed.
func (r *Run) eval(x uint64) {
	r.acc.Evals++
	r.sig = hash2(r.sig, x)
}

// state counts an abstract state.
func (r *Run) state(parts ...int) {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		h = hash2(h, uint64(p))
	}
	if len(r.acc.States) < setCap {
		r.acc.States[h] = struct{}{}
	}
}

func (r *Run) advance(ns int64) {
	if ns > 0 {
		r.acc.SimNanos += ns
		r.mono += ns
	}
	r.clock += ns
}

var devNull = func() *os.File {
	f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		die(exitError, "%v", err)
	}
	return f
}()

// execute performs one run of a property's scenario and returns the violation.
func execute(prop string, src *Src, tracing bool, acc *Acc) (*violation, *Run) {
	sc := scenarios[prop]
	r := &Run{prop: prop, src: src, tracing: tracing, acc: acc}
	r.sig = hashStr(1469598103, prop)
	r.clock = 1_600_000_000e9 + int64(src.N(1<<20))*1e9
	r.fs = newFS(r)
	xidMachine = []byte{1, 2, 3}
	curProcessPid = 1
	xidPid, xidCounter = 1, 0
	local, stdout, stderr := time.Local, os.Stdout, os.Stderr
	os.Stdout, os.Stderr = devNull, devNull // what the library prints is not ours
	R = r
	runtime.VerifSeed(uint64(src.N(1 << 30)))
	r.schedule(func() {
		r.lib("package initialisation", zzverifsim.Reset)
		sc.run(r)
	})
	R = nil
	time.Local, os.Stdout, os.Stderr = local, stdout, stderr
	acc.Runs++
	acc.Choices += int64(len(src.rec))
	acc.Preempts += int64(r.npreempt)
	acc.Crashes += int64(r.ncrash)
	if r.nfaults+r.npreempt+r.ncrash > 0 {
		acc.Nontrivial++
		if len(acc.Sigs) < setCap {
			acc.Sigs[r.sig] = struct{}{}
		}
	}
	return r.viol, r
}
