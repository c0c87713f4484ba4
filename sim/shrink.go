package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"
)

const (
	shrinkRuns = 120000
	shrinkTime = 30 * time.Second

	shrinkPairs  = 20000 // fruitless attempts
	shrinkFront  = 120   // choices
	shrinkLong   = 150   // choices
	shrinkOthers = 500   // runs looked at for a shorter one
)

// shrink reduces the choices of a failing run: blocks are deleted, set to the
// simplest choice, single choices lowered, as long as the run fails in the
// same way. The best run so far is always on disk.
func shrink(prop string, seed, index int, out string, runs int) {
	began := time.Now()
	v, r := execute(prop, seedSrc(runSeed(prop, seed, index)), false, newAcc())
	if v == nil {
		die(exitError, "run %d does not fail", index)
	}
	class := v.class
	rf := &replayFile{Property: prop, Seed: seed, Index: index, RunSeed: fmt.Sprintf("%016x", runSeed(prop, seed, index)), Class: class, Original: len(r.src.rec)}
	best := trim(r.src.rec)
	save := func() {
		v, r := execute(prop, scriptSrc(best), true, newAcc())
		if v == nil || v.class != class {
			die(exitError, "the recorded choices of run %d do not fail", index)
		}
		rf.Choices, rf.Message, rf.Trace = best, v.msg, r.trace
		writeJSON(out, rf)
	}
	save()
	saved := time.Now()
	// a long run is replaced by a shorter one that fails in the same way, if
	// the runs that follow have one
	for i := index + 1; i <= index+shrinkOthers && runs > 0 && len(best) > shrinkLong && time.Since(began) < shrinkTime/4; i++ {
		v, r := execute(prop, seedSrc(runSeed(prop, seed, i)), false, newAcc())
		if v == nil || v.class != class || !simpler(trim(r.src.rec), best) {
			continue
		}
		rf.Index, rf.RunSeed, rf.Original = i, fmt.Sprintf("%016x", runSeed(prop, seed, i)), len(r.src.rec)
		best = trim(r.src.rec)
		save()
	}
	spent := func() bool { return rf.Tried >= runs || time.Since(began) > shrinkTime }
	try := func(c []uint32) bool {
		if spent() {
			return false
		}
		rf.Tried++
		v, r := execute(prop, scriptSrc(c), false, newAcc())
		if v == nil || v.class != class {
			return false
		}
		n := trim(r.src.rec)
		if !simpler(n, best) {
			return false
		}
		best = n
		if time.Since(saved) > time.Second {
			save()
			saved = time.Now()
		}
		return true
	}
	for round := true; round && !spent(); {
		round = false
		for size := len(best) / 2; size >= 1 && !spent(); size /= 2 {
			for at := len(best) - size; at >= 0 && !spent(); at -= size {
				if at+size > len(best) {
					continue
				}
				c := append(append([]uint32(nil), best[:at]...), best[at+size:]...)
				if try(c) {
					round = true
					continue
				}
				c = append([]uint32(nil), best...)
				zero := true
				for i := at; i < at+size; i++ {
					zero = zero && c[i] == 0
					c[i] = 0
				}
				if !zero && try(c) {
					round = true
				}
			}
		}
		for i := 0; i < len(best) && !spent(); i++ {
			for lo, hi := uint32(0), uint32(0); i < len(best) && best[i] > 0 && !spent(); {
				hi = best[i]
				mid := lo + (hi-lo)/2
				if mid >= hi {
					break
				}
				c := append([]uint32(nil), best...)
				c[i] = mid
				if try(c) {
					round = true
				} else {
					lo = mid + 1
				}
			}
		}
		// a choice that matters moved to the front
		for j := len(best) - 1; j > 0 && !spent(); j-- {
			if j >= len(best) || best[j] == 0 {
				continue
			}
			for n := min(j, shrinkFront); n > 0 && !spent(); n-- {
				if try(append(append([]uint32(nil), best[:j-n]...), best[j:]...)) {
					round = true
					break
				}
			}
		}
		// a number lowered together with the choices it asked for
		for k, misses := 0, 0; misses < shrinkPairs && len(best) > 1 && !spent(); k++ {
			misses++
			var set []int
			for i, v := range best[:len(best)-1] {
				if v != 0 {
					set = append(set, i)
				}
			}
			if len(set) == 0 {
				break
			}
			i := set[hash2(1, uint64(k))%uint64(len(set))]
			c := append([]uint32(nil), best...)
			c[i]--
			if k%3 == 0 {
				c[i] /= 2
			}
			at := i + 1 + int(hash2(2, uint64(k))%48)
			if k%2 == 0 { // right behind a choice that matters
				at = i + 1
				if n := set[hash2(4, uint64(k))%uint64(len(set))]; n > i {
					at = n + 1
				}
			}
			end := at + 1 + int(hash2(3, uint64(k))%uint64(1+len(best)>>uint(k%8)))
			if at >= len(c) {
				continue
			}
			if end > len(c) {
				end = len(c)
			}
			if try(append(c[:at], c[end:]...)) {
				round, misses = true, 0
			}
		}
	}
	save()
}

// trim drops the choices a script answers by itself.
func trim(c []uint32) []uint32 {
	n := len(c)
	for n > 0 && c[n-1] == 0 {
		n--
	}
	return append([]uint32(nil), c[:n]...)
}

func simpler(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// replay executes a replay file; exit 1 says it failed in the recorded way.
func replay(name string) int {
	b, err := os.ReadFile(name)
	if err != nil {
		die(2, "%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die(2, "%s: %v", name, err)
	}
	if scenarios[rf.Property] == nil {
		die(2, "no scenario for property %q", rf.Property)
	}
	if rf.Fatal {
		code, out := runAlone(rf.Property, rf.Seed, rf.Index)
		fmt.Println(tail(out, 2000))
		if code == 0 {
			fmt.Println("not reproduced")
			return 0
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, name)
		return 1
	}
	if rf.Stride > 0 {
		_, out, res := runSequence(rf.Property, rf.Seed, rf.First, rf.Stride, rf.Index)
		fmt.Println(tail(out, 2000))
		if res.Failed != rf.Index || res.Class != rf.Class {
			fmt.Println("not reproduced")
			return 0
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, name)
		return 1
	}
	v, r := execute(rf.Property, scriptSrc(rf.Choices), true, newAcc())
	for _, l := range r.trace {
		fmt.Println("  " + l)
	}
	if v == nil {
		fmt.Println("not reproduced: the property held")
		return 0
	}
	fmt.Println(v)
	if v.class != rf.Class || v.msg != rf.Message || strings.Join(r.trace, "\n") != strings.Join(rf.Trace, "\n") {
		fmt.Println("not reproduced: the execution differs from the recorded one")
		return 3
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, name)
	return 1
}

// hashes prints a digest of the full trace of runs.
func hashes(prop string, seed, first, stride, count int) {
	for i := first; i < count; i += stride {
		v, r := execute(prop, seedSrc(runSeed(prop, seed, i)), true, newAcc())
		h := sha256.New()
		for _, l := range r.trace {
			fmt.Fprintln(h, l)
		}
		fmt.Fprintln(h, r.sig, r.src.rec, v)
		fmt.Printf("%d %x\n", i, h.Sum(nil)[:12])
	}
}

// selftest executes runs in processes with different settings, in different
// orders, and compares the digests of their traces.
func selftest(props []string) int {
	if len(props) == 0 {
		props = propList()
	}
	seed := envInt("VERIF_SEED", 1)
	n := envInt("VERIF_RUNS", 400)
	bad := 0
	for _, prop := range props {
		ref := map[string]string{}
		collect := func(label string, env []string, first, stride int) {
			cmd := exec.Command(self(), "hashes", prop, fmt.Sprint(seed), fmt.Sprint(first), fmt.Sprint(stride), fmt.Sprint(n))
			cmd.Env = append(os.Environ(), env...)
			out, err := cmd.Output()
			if err != nil {
				die(2, "%s %s: %v", prop, label, err)
			}
			for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
				f := strings.Fields(l)
				if len(f) != 2 {
					continue
				}
				if old, ok := ref[f[0]]; !ok {
					ref[f[0]] = f[1]
				} else if old != f[1] {
					bad++
					fmt.Printf("%s run %s differs (%s)\n", prop, f[0], label)
				}
			}
		}
		collect("reference", []string{"GOMAXPROCS=8"}, 0, 1)
		collect("one processor", []string{"GOMAXPROCS=1"}, 0, 1)
		collect("frequent collections", []string{"GOGC=5", "GOMAXPROCS=4"}, 0, 1)
		collect("no collections", []string{"GOGC=off"}, 0, 1)
		for w := 0; w < 3; w++ {
			collect("three workers", []string{"TZ=Asia/Tokyo"}, w, 3)
		}
		fmt.Printf("%s: %d runs executed 5 times\n", prop, len(ref))
	}
	if bad > 0 {
		return 1
	}
	return 0
}
