// mkoverlay writes the build overlay under which the simulator is compiled.
//
// The overlay puts every source of nondeterminism the library can meet behind
// a seam, without touching a file of the library or of the Go installation:
//
//   - syscall: open, read, write, close, fsync, truncate, rename and unlink go
//     through syscall.VerifFS when it is set (simulated disk faults);
//   - time:    Now, Since and Until read time.VerifNow when it is set;
//   - sync:    Mutex and RWMutex block through sync.VerifBlock when it is set,
//     and pools of simulated tasks give back what was put last;
//   - runtime: a goroutine can be marked as a simulated task: the goroutines it
//     starts, its waits for channels, wait groups and conditions, and its
//     sleeps are handed to the simulator's scheduler, its writes to maps can
//     be interrupted halfway, and its random numbers come from a seeded stream;
//   - library: every statement of every non-test file of the repository is
//     preceded by a call of a yield hook (statement-level preemption points),
//     and its package variables can be set back to their initial values.
//
// With the hooks unset, the code behaves as it does without the overlay.
//
// usage: mkoverlay REPO OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const hookPkgName = "zzverifsim"

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "mkoverlay: "+format+"\n", args...)
	os.Exit(2)
}

var (
	out     string
	replace = map[string]string{}
	nfiles  int
)

func emit(orig, content string) {
	nfiles++
	name := filepath.Join(out, fmt.Sprintf("f%04d_%s", nfiles, filepath.Base(orig)))
	if err := os.WriteFile(name, []byte(content), 0o644); err != nil {
		die("%v", err)
	}
	replace[orig] = name
}

func readFile(name string) string {
	b, err := os.ReadFile(name)
	if err != nil {
		die("%v", err)
	}
	return string(b)
}

func mustReplace(s, old, new, where string) string {
	if strings.Count(s, old) != 1 {
		die("%s: expected exactly one occurrence of %q, found %d", where, old, strings.Count(s, old))
	}
	return strings.Replace(s, old, new, 1)
}

func patchStd(goroot string) {
	src := filepath.Join(goroot, "src")

	// syscall
	zs := filepath.Join(src, "syscall", "zsyscall_linux_amd64.go")
	s := readFile(zs)
	for _, c := range syscalls {
		s = mustReplace(s, "\nfunc "+c.name+"(", "\nfunc verifReal_"+c.name+"(", zs)
	}
	emit(zs, s)
	emit(filepath.Join(src, "syscall", "zz_verifsim_linux_amd64.go"), syscallHook())

	// time
	tt := filepath.Join(src, "time", "time.go")
	s = readFile(tt)
	s = mustReplace(s, "func Now() Time {\n", "func Now() Time {\n\tif h := VerifNow; h != nil {\n\t\tif sec, nsec, mono, ok := h(); ok {\n\t\t\tif w := sec + unixToInternal - minWall; uint64(w)>>33 == 0 {\n\t\t\t\treturn Time{hasMonotonic | uint64(w)<<nsecShift | uint64(nsec), mono, Local}\n\t\t\t}\n\t\t\treturn Time{uint64(nsec), sec + unixToInternal, Local}\n\t\t}\n\t}\n", tt)
	s = mustReplace(s, "func Since(t Time) Duration {\n", "func Since(t Time) Duration {\n\tif VerifNow != nil {\n\t\treturn Now().Sub(t)\n\t}\n", tt)
	s = mustReplace(s, "func Until(t Time) Duration {\n", "func Until(t Time) Duration {\n\tif VerifNow != nil {\n\t\treturn t.Sub(Now())\n\t}\n", tt)
	s += "\n// VerifNow, when set, is the clock of the calling goroutine.\nvar VerifNow func() (sec int64, nsec int32, mono int64, ok bool)\n"
	emit(tt, s)

	// sync
	sm := filepath.Join(src, "sync", "mutex.go")
	s = readFile(sm)
	s = mustReplace(s, "func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\tif h := VerifBlock; h != nil {\n\t\tfor !m.mu.TryLock() {\n\t\t\th()\n\t\t}\n\t\treturn\n\t}\n", sm)
	s += "\n// VerifBlock, when set, is called each time a lock cannot be taken.\nvar VerifBlock func()\n"
	emit(sm, s)
	rw := filepath.Join(src, "sync", "rwmutex.go")
	s = readFile(rw)
	s = mustReplace(s, "func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\tif h := VerifBlock; h != nil {\n\t\tfor !rw.TryRLock() {\n\t\t\th()\n\t\t}\n\t\treturn\n\t}\n", rw)
	s = mustReplace(s, "func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n\tif h := VerifBlock; h != nil {\n\t\tfor !rw.TryLock() {\n\t\t\th()\n\t\t}\n\t\treturn\n\t}\n", rw)
	emit(rw, s)

	sp := filepath.Join(src, "sync", "pool.go")
	s = readFile(sp)
	s = mustReplace(s, "\tNew func() any\n}\n", "\tNew func() any\n\n\tverif []any\n}\n\n// VerifPool, when set, says whether the caller is a simulated task.\nvar VerifPool func() bool\n", sp)
	s = mustReplace(s, "func (p *Pool) Put(x any) {\n\tif x == nil {\n\t\treturn\n\t}\n", "func (p *Pool) Put(x any) {\n\tif x == nil {\n\t\treturn\n\t}\n\tif h := VerifPool; h != nil && h() {\n\t\tp.verif = append(p.verif, x)\n\t\treturn\n\t}\n", sp)
	s = mustReplace(s, "func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n\tif h := VerifPool; h != nil && h() {\n\t\tif n := len(p.verif); n > 0 {\n\t\t\tx := p.verif[n-1]\n\t\t\tp.verif[n-1] = nil\n\t\t\tp.verif = p.verif[:n-1]\n\t\t\treturn x\n\t\t}\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n", sp)
	emit(sp, s)

	// runtime: a goroutine can be marked as simulated; its random numbers
	// (map iteration, map seeds, math/rand) come from a seeded stream.
	r2 := filepath.Join(src, "runtime", "runtime2.go")
	s = readFile(r2)
	i := strings.Index(s, "\ntype g struct {\n")
	if i < 0 {
		die("%s: no type g", r2)
	}
	k := strings.Index(s[i:], "\n}\n")
	s = s[:i+k] + "\n\tverifSim    bool\n\tverifParked bool\n\tverifID     uint64\n\tverifNext   guintptr" + s[i+k:]
	emit(r2, s)
	rr := filepath.Join(src, "runtime", "rand.go")
	s = readFile(rr)
	s = mustReplace(s, "func rand() uint64 {\n", "func rand() uint64 {\n\tif getg().verifSim {\n\t\treturn verifRand()\n\t}\n", rr)
	s = mustReplace(s, "func maps_rand() uint64 {\n", "func maps_rand() uint64 {\n\tif !getg().verifSim {\n\t\treturn 0x5bd1e9955bd1e995\n\t}\n", rr)
	emit(rr, s)
	emit(filepath.Join(src, "runtime", "zz_verifsim.go"), runtimeHook)
	rp := filepath.Join(src, "runtime", "proc.go")
	s = readFile(rp)
	s = mustReplace(s, "func newproc(fn *funcval) {\n", "func newproc(fn *funcval) {\n\tif h := VerifGo; h != nil && getg().verifSim && !verifOwn(fn) {\n\t\th(*(*func())(unsafe.Pointer(&fn)))\n\t\treturn\n\t}\n", rp)
	s = mustReplace(s, "\tgp.waitreason = reason\n\tmp.waitTraceBlockReason = traceReason\n\tmp.waitTraceSkip = traceskip\n\treleasem(mp)\n", "\tgp.waitreason = reason\n\tgp.verifParked = gp.verifSim && verifWaits(reason)\n\tmp.waitTraceBlockReason = traceReason\n\tmp.waitTraceSkip = traceskip\n\treleasem(mp)\n", rp)
	s = mustReplace(s, "\t\t\texecute(gp, true) // Schedule it back, never returns.\n\t\t}\n\t}\n\n\tif bubble != nil {\n\t\tbubble.decActive()\n\t}\n\n\tschedule()\n", "\t\t\tgp.verifParked = false\n\t\t\texecute(gp, true) // Schedule it back, never returns.\n\t\t}\n\t}\n\n\tif bubble != nil {\n\t\tbubble.decActive()\n\t}\n\n\tif parked {\n\t\tverifSignal()\n\t}\n\n\tschedule()\n", rp)
	s = mustReplace(s, "func park_m(gp *g) {\n\tmp := getg().m\n", "func park_m(gp *g) {\n\tmp := getg().m\n\tparked := gp.verifParked // others may run gp as soon as it waits\n", rp)
	s = mustReplace(s, "func ready(gp *g, traceskip int, next bool) {\n", "func ready(gp *g, traceskip int, next bool) {\n\tif gp.verifParked {\n\t\tverifReady(gp)\n\t\treturn\n\t}\n", rp)
	emit(rp, s)
	gc := filepath.Join(src, "runtime", "mgc.go")
	s = readFile(gc)
	s = mustReplace(s, "\nfunc gcStart(trigger gcTrigger) {\n", "\nfunc gcStart(trigger gcTrigger) {\n\t// What a task does here, it does for the runtime.\n\tgp := getg()\n\tsim := gp.verifSim\n\tgp.verifSim = false\n\tverifGCStart(trigger)\n\tgp.verifSim = sim\n}\n\nfunc verifGCStart(trigger gcTrigger) {\n", gc)
	emit(gc, s)
	rt := filepath.Join(src, "runtime", "time.go")
	s = readFile(rt)
	s = mustReplace(s, "func timeSleep(ns int64) {\n", "func timeSleep(ns int64) {\n\tif h := VerifSleep; h != nil && getg().verifSim {\n\t\th(ns)\n\t\treturn\n\t}\n", rt)
	emit(rt, s)
	rs := filepath.Join(src, "runtime", "select.go")
	s = readFile(rs)
	s = mustReplace(s, "\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := cheaprandn(uint32(norder + 1))\n\t\tif gp.verifSim {\n\t\t\tj = uint32(verifRand() % uint64(norder+1))\n\t\t}\n", rs)
	emit(rs, s)
	ra := filepath.Join(src, "internal", "runtime", "maps", "runtime_alg.go")
	s = readFile(ra)
	s = mustReplace(s, "hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x9e3779b97f4a7c15 * uint64(i+1) | 1)", ra)
	s = mustReplace(s, "key[i] = bootstrapRand()", "key[i] = 0xbf58476d1ce4e5b9 * uint64(i+1) | 1", ra)
	emit(ra, s)

	// Forbidden uses of maps and locks are told to the simulator.
	pf := filepath.Join(src, "runtime", "panic.go")
	s = readFile(pf)
	for _, name := range []string{"maps_fatal", "sync_fatal", "internal_sync_fatal"} {
		s = mustReplace(s, "\nfunc "+name+"(s string) {\n", "\nfunc "+name+"(s string) {\n\tif h := VerifFatal; h != nil && getg().verifSim {\n\t\th(s)\n\t}\n", pf)
	}
	emit(pf, s)

	// A write to a map can be interrupted where the map is being written.
	for _, name := range []string{"map.go", "runtime.go", "runtime_fast32.go", "runtime_fast64.go", "runtime_faststr.go"} {
		rm := filepath.Join(src, "internal", "runtime", "maps", name)
		s = readFile(rm)
		const toggle = "\tm.writing ^= 1 // toggle, see comment on writing\n"
		if !strings.Contains(s, toggle) {
			die("%s: no map write found", rm)
		}
		s = strings.ReplaceAll(s, toggle, toggle+"\tverifWriting()\n")
		if name == "map.go" {
			s += "\n//go:linkname verifWriting\nfunc verifWriting()\n"
		}
		emit(rm, s)
	}
}

const runtimeHook = `package runtime

import _ "unsafe" // for linkname

var verifState uint64

// VerifGo, when set, starts the goroutines of simulated tasks.
var VerifGo func(f func())

// VerifSleep, when set, is the sleep of simulated tasks.
var VerifSleep func(ns int64)

// VerifWriting, when set, is called while a simulated task writes to a map.
var VerifWriting func()

// VerifFatal, when set, is called before a fatal error ends a simulated task.
var VerifFatal func(s string)

//go:linkname maps_verifWriting internal/runtime/maps.verifWriting
func maps_verifWriting() {
	if h := VerifWriting; h != nil && getg().verifSim {
		h()
	}
}

var (
	verifLock    mutex
	verifWaiter  guintptr // the scheduler
	verifPending bool
	verifHead    guintptr // tasks whose wait is over
	verifTail    guintptr
)

// verifOwn says whether a goroutine is one of the runtime's own.
func verifOwn(fn *funcval) bool {
	if fn == nil {
		return true
	}
	name := funcname(findfunc(fn.fn))
	return len(name) > 8 && name[:8] == "runtime."
}

// verifWaits says which waits of simulated tasks are waits for each other.
func verifWaits(reason waitReason) bool {
	switch reason {
	case waitReasonChanReceiveNilChan, waitReasonChanSendNilChan, waitReasonSelectNoCases, waitReasonSelect,
		waitReasonChanReceive, waitReasonChanSend, waitReasonSyncCondWait, waitReasonSyncWaitGroupWait:
		return true
	}
	return false
}

// verifSignal tells the scheduler that the running task has stopped. It runs
// on the system stack.
func verifSignal() {
	lock(&verifLock)
	w := verifWaiter
	verifWaiter = 0
	if w == 0 {
		verifPending = true
	}
	unlock(&verifLock)
	if w != 0 {
		ready(w.ptr(), 0, true)
	}
}

// verifReady notes that a task could go on.
func verifReady(gp *g) {
	lock(&verifLock)
	gp.verifNext = 0
	if verifTail == 0 {
		verifHead.set(gp)
	} else {
		verifTail.ptr().verifNext.set(gp)
	}
	verifTail.set(gp)
	unlock(&verifLock)
}

// VerifID numbers the calling goroutine.
func VerifID(id uint64) { getg().verifID = id }

// VerifSignal is called by a task that stops by itself.
func VerifSignal() { systemstack(verifSignal) }

// VerifWait waits until the running task has stopped.
func VerifWait() {
	lock(&verifLock)
	if verifPending {
		verifPending = false
		unlock(&verifLock)
		return
	}
	verifWaiter.set(getg())
	goparkunlock(&verifLock, waitReasonZero, traceBlockGeneric, 1)
}

// VerifReady returns a task whose wait is over, g = 0 if there is none.
func VerifReady() (id uint64, g uintptr) {
	lock(&verifLock)
	if verifHead != 0 {
		gp := verifHead.ptr()
		id, g = gp.verifID, uintptr(verifHead)
		verifHead = gp.verifNext
		if verifHead == 0 {
			verifTail = 0
		}
		gp.verifNext = 0
	}
	unlock(&verifLock)
	return
}

// VerifResume lets such a task go on.
func VerifResume(g uintptr) {
	gp := guintptr(g).ptr()
	gp.verifParked = false
	systemstack(func() { ready(gp, 0, true) })
}

// VerifMark says whether the calling goroutine is a simulated task.
func VerifMark(on bool) { getg().verifSim = on }

// VerifMarked reports whether the calling goroutine is a simulated task.
func VerifMarked() bool { return getg().verifSim }

// VerifSeed seeds the random numbers of simulated tasks.
func VerifSeed(seed uint64) { verifState = seed }

//go:nosplit
func verifRand() uint64 {
	verifState += 0x9e3779b97f4a7c15
	z := verifState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
`

// The system calls that go through the seam, with the body of their hook call.
var syscalls = []struct{ name, params, results, call string }{
	{"openat", "dirfd int, path string, flags int, mode uint32", "fd int, err error", "Openat(dirfd, path, flags, mode)"},
	{"read", "fd int, p []byte", "n int, err error", "Read(fd, p, -1)"},
	{"write", "fd int, p []byte", "n int, err error", "Write(fd, p, -1)"},
	{"pread", "fd int, p []byte, offset int64", "n int, err error", "Read(fd, p, offset)"},
	{"pwrite", "fd int, p []byte, offset int64", "n int, err error", "Write(fd, p, offset)"},
	{"Close", "fd int", "err error", "Close(fd)"},
	{"Fsync", "fd int", "err error", "Fsync(fd)"},
	{"Fdatasync", "fd int", "err error", "Fsync(fd)"},
	{"Ftruncate", "fd int, length int64", "err error", "Ftruncate(fd, length)"},
	{"Truncate", "path string, length int64", "err error", "Truncate(path, length)"},
	{"Seek", "fd int, offset int64, whence int", "off int64, err error", "Seek(fd, offset, whence)"},
	{"Fstat", "fd int, stat *Stat_t", "err error", "Fstat(fd, stat)"},
	{"fstatat", "fd int, path string, stat *Stat_t, flags int", "err error", "Fstatat(fd, path, stat, flags)"},
	{"Fchmod", "fd int, mode uint32", "err error", "Fchmod(fd, mode)"},
	{"fchmodat", "dirfd int, path string, mode uint32", "err error", "Fchmodat(dirfd, path, mode)"},
	{"Mkdirat", "dirfd int, path string, mode uint32", "err error", "Mkdirat(dirfd, path, mode)"},
	{"Renameat", "olddirfd int, oldpath string, newdirfd int, newpath string", "err error", "Renameat(olddirfd, oldpath, newdirfd, newpath)"},
	{"unlinkat", "dirfd int, path string, flags int", "err error", "Unlinkat(dirfd, path, flags)"},
}

const hookInterface = `package syscall

// VerifHooks is what a simulated disk implements. handled=false falls through
// to the real system call.
type VerifHooks interface {
	Openat(dirfd int, path string, flags int, mode uint32) (fd int, err error, handled bool)
	Read(fd int, p []byte, off int64) (n int, err error, handled bool)
	Write(fd int, p []byte, off int64) (n int, err error, handled bool)
	Close(fd int) (err error, handled bool)
	Fsync(fd int) (err error, handled bool)
	Ftruncate(fd int, length int64) (err error, handled bool)
	Truncate(path string, length int64) (err error, handled bool)
	Seek(fd int, offset int64, whence int) (off int64, err error, handled bool)
	Fstat(fd int, stat *Stat_t) (err error, handled bool)
	Fstatat(fd int, path string, stat *Stat_t, flags int) (err error, handled bool)
	Fchmod(fd int, mode uint32) (err error, handled bool)
	Fchmodat(dirfd int, path string, mode uint32) (err error, handled bool)
	Mkdirat(dirfd int, path string, mode uint32) (err error, handled bool)
	Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error, handled bool)
	Unlinkat(dirfd int, path string, flags int) (err error, handled bool)
}

var VerifFS VerifHooks
`

func paramNames(params string) string {
	var names []string
	for _, p := range strings.Split(params, ", ") {
		names = append(names, strings.Fields(p)[0])
	}
	return strings.Join(names, ", ")
}

func syscallHook() string {
	var b strings.Builder
	b.WriteString(hookInterface)
	for _, c := range syscalls {
		res := paramNames(c.results)
		fmt.Fprintf(&b, "\nfunc %s(%s) (%s) {\n\tif h := VerifFS; h != nil {\n\t\tif %s, ok := h.%s; ok {\n\t\t\treturn %s\n\t\t}\n\t}\n\treturn verifReal_%s(%s)\n}\n",
			c.name, c.params, c.results, res, c.call, res, c.name, paramNames(c.params))
	}
	return b.String()
}

// hookPkg is the package the instrumented library calls.
const hookPkg = `// Package zzverifsim exists only in simulator builds.
package zzverifsim

// Hook is called before every statement of the library when it is set.
var Hook func()

var resets []func()

// Register adds the package variables of one file.
func Register(reset func()) { resets = append(resets, reset) }

// Reset gives the package variables of the library their initial values.
func Reset() {
	for _, f := range resets {
		f()
	}
}

// Y is a preemption point.
func Y() {
	if h := Hook; h != nil {
		h()
	}
}
`

func modulePath(repo string) string {
	for _, line := range strings.Split(readFile(filepath.Join(repo, "go.mod")), "\n") {
		f := strings.Fields(line)
		if len(f) >= 2 && f[0] == "module" {
			return strings.Trim(f[1], "\"")
		}
	}
	die("no module line in %s/go.mod", repo)
	return ""
}

// instrument inserts a yield before every statement, on the statement's own
// line, so line numbers are those of the library's source.
func instrument(file, imp string) (string, bool) {
	src := readFile(file)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	for _, im := range f.Imports {
		if im.Path.Value == "\"C\"" {
			return "", false
		}
	}
	offs := map[int]bool{}
	add := func(list []ast.Stmt) {
		for _, st := range list {
			for { // a label must stay in front of its loop: yield before the label
				if _, ok := st.(*ast.EmptyStmt); ok {
					break
				}
				offs[fset.Position(st.Pos()).Offset] = true
				break
			}
		}
	}
	bodyless := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SwitchStmt:
			bodyless[x.Body] = true
		case *ast.TypeSwitchStmt:
			bodyless[x.Body] = true
		case *ast.SelectStmt:
			bodyless[x.Body] = true
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				offs[fset.Position(x.Body.Rbrace).Offset] = true
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				offs[fset.Position(x.Body.Rbrace).Offset] = true
			}
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if !bodyless[x] {
				add(x.List)
			}
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	reset := resetCode(fset, f, src)
	if len(offs) == 0 && reset == "" {
		return "", false
	}
	list := make([]int, 0, len(offs))
	for o := range offs {
		list = append(list, o)
	}
	sort.Ints(list)
	pkgEnd := fset.Position(f.Name.End()).Offset
	var b strings.Builder
	b.WriteString(src[:pkgEnd])
	fmt.Fprintf(&b, "; import %s %q", hookPkgName, imp)
	prev := pkgEnd
	for _, o := range list {
		b.WriteString(src[prev:o])
		b.WriteString(hookPkgName + ".Y();")
		prev = o
	}
	b.WriteString(src[prev:])
	if reset != "" {
		fmt.Fprintf(&b, "\n\nfunc init() {\n\t%s.Register(func() {\n%s\t})\n}\n", hookPkgName, reset)
	}
	return b.String(), true
}

// resetLimit is the length of the longest initialisation that is repeated for
// every run; longer ones are tables.
const resetLimit = 4000

// resetCode assigns the package variables of a file their initial values.
func resetCode(fset *token.FileSet, f *ast.File, src string) string {
	text := func(n ast.Node) string {
		return src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset]
	}
	var b strings.Builder
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if int(vs.End()-vs.Pos()) > resetLimit || embedded(gd.Doc) || embedded(vs.Doc) {
				continue
			}
			var names, values []string
			blank := true
			for _, n := range vs.Names {
				names = append(names, n.Name)
				blank = blank && n.Name == "_"
			}
			for _, v := range vs.Values {
				values = append(values, text(v))
			}
			switch {
			case blank:
			case len(values) > 0:
				fmt.Fprintf(&b, "\t\t%s = %s\n", strings.Join(names, ", "), strings.Join(values, ", "))
			default:
				for _, n := range names {
					if n != "_" {
						fmt.Fprintf(&b, "\t\t%s = *new(%s)\n", n, text(vs.Type))
					}
				}
			}
		}
	}
	return b.String()
}

func embedded(doc *ast.CommentGroup) bool {
	if doc != nil {
		for _, c := range doc.List {
			if strings.HasPrefix(c.Text, "//go:embed") {
				return true
			}
		}
	}
	return false
}

func main() {
	if len(os.Args) != 3 {
		die("usage: mkoverlay REPO OUTDIR")
	}
	repo, err := filepath.Abs(os.Args[1])
	if err != nil {
		die("%v", err)
	}
	out, err = filepath.Abs(os.Args[2])
	if err != nil {
		die("%v", err)
	}
	if err := os.MkdirAll(out, 0o755); err != nil {
		die("%v", err)
	}
	gr, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		die("go env GOROOT: %v", err)
	}
	patchStd(strings.TrimSpace(string(gr)))

	imp := modulePath(repo) + "/" + hookPkgName
	emit(filepath.Join(repo, hookPkgName, "hook.go"), hookPkg)
	n := 0
	err = filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		base := filepath.Base(p)
		if info.IsDir() {
			if p != repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") {
			return nil
		}
		if s, ok := instrument(p, imp); ok {
			emit(p, s)
			n++
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	if n == 0 {
		die("no library file was instrumented")
	}
	j, err := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("mkoverlay: %d library files instrumented\n", n)
}
