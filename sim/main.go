// finsim decides properties of finmod by deterministic simulation.
//
//	finsim check PROP           the check of a property (VERIF_SEED, VERIF_TIER)
//	finsim replay FILE          execute a replay file again
//	finsim trace PROP SEED I    print run I of a seed
//	finsim selftest             executions are functions of their seed alone
//	finsim list                 properties with a scenario
//
// Every run is one execution of a scenario. All its decisions - workload,
// faults, crash points, task switches - come from one stream of choices, made
// from the run's seed or read from a replay file.
package main

import (
	"bufio"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

var ownStderr = os.Stderr // a run takes os.Stderr away

func die(code int, format string, args ...interface{}) {
	fmt.Fprintf(ownStderr, "finsim: "+format+"\n", args...)
	os.Exit(code)
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		die(2, "not a number: %q", s)
	}
	return n
}

// runSeed is the seed of one run.
func runSeed(prop string, seed, index int) uint64 {
	return hash2(hash2(hashStr(14695981039346656037, prop), uint64(seed)), uint64(index))
}

func outDir() string {
	if d := os.Getenv("VERIF_OUT"); d != "" {
		return d
	}
	return "/verif"
}

// knownFindings reads the violations that are recorded and not to be reported
// again: lines "known: property=<id> class=<class> <what fails>".
func knownFindings(prop string) map[string]string {
	known := map[string]string{}
	f, err := os.Open("/verif/known-findings.txt")
	if err != nil {
		return known
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		if len(w) >= 3 && w[0] == "known:" && w[1] == "property="+prop && strings.HasPrefix(w[2], "class=") {
			known[strings.TrimPrefix(w[2], "class=")] = strings.Join(w[3:], " ")
		}
	}
	return known
}

func main() {
	loadZones()
	if len(os.Args) < 2 {
		die(2, "usage: finsim check PROP | replay FILE | trace PROP SEED INDEX | selftest | list")
	}
	args := os.Args[2:]
	need := func(n int) {
		if len(args) < n {
			die(2, "%s needs %d arguments", os.Args[1], n)
		}
	}
	prop := func() string {
		need(1)
		if scenarios[args[0]] == nil {
			die(2, "no scenario for property %q", args[0])
		}
		return args[0]
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(prop()))
	case "worker": // PROP SEED FIRST STRIDE COUNT OUT
		need(6)
		installHooks()
		worker(prop(), atoi(args[1]), atoi(args[2]), atoi(args[3]), atoi(args[4]), args[5])
	case "shrink": // PROP SEED INDEX OUT RUNS
		need(5)
		installHooks()
		shrink(prop(), atoi(args[1]), atoi(args[2]), args[3], atoi(args[4]))
	case "replay":
		need(1)
		installHooks()
		os.Exit(replay(args[0]))
	case "trace":
		need(3)
		installHooks()
		v, r := execute(prop(), seedSrc(runSeed(args[0], atoi(args[1]), atoi(args[2]))), true, newAcc())
		fmt.Println(strings.Join(r.trace, "\n"))
		if v != nil {
			fmt.Println(v)
			os.Exit(1)
		}
	case "hashes": // PROP SEED FIRST STRIDE COUNT
		need(5)
		installHooks()
		hashes(prop(), atoi(args[1]), atoi(args[2]), atoi(args[3]), atoi(args[4]))
	case "selftest":
		os.Exit(selftest(args))
	case "list":
		fmt.Println(strings.Join(propList(), "\n"))
	default:
		die(2, "unknown command %q", os.Args[1])
	}
}

func propList() []string {
	var ids []string
	for id := range scenarios {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}
