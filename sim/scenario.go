package main

// scenario is the simulated system in which one property is decided.
type scenario struct {
	run             func(*Run)
	rule            string // what is varied, what counts as non-trivial and as distinct
	quick, thorough int    // runs per tier
	assume          []string
	real, stub      []string
}

var scenarios = map[string]*scenario{}
