package main

import (
	"fmt"
	"reflect"

	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
)

func init() {
	scenarios["C14"] = &scenario{
		run:      runActions,
		rule:     "1 to 4 tasks add actions to their own lists in several processes of one to three hosts, preempted at single statements, on a clock that stands still or jumps; non-trivial: at least one preemption, clock fault or restart; distinct: signature over schedule, faults and lists",
		quick:    360000,
		thorough: 4000000,
		assume:   []string{"two processes of one host differ in their process ID within a second, two hosts in their machine ID", "fewer than 2^24 IDs are drawn per second and process"},
		real:     []string{"ID generator github.com/rs/xid v1.3.0"},
		stub:     []string{"clock, process ID, machine ID and start of the ID counter"},
	}
}

// tally counts payloads; IDs are judged apart.
type tally struct {
	create  map[string]int
	update  map[string]int
	cancel  map[string]int
	upos    map[string]int
	cpos    map[string]int
	notes   []strategy.Annotation
	entries int
}

func newTally() *tally {
	return &tally{create: map[string]int{}, update: map[string]int{}, cancel: map[string]int{}, upos: map[string]int{}, cpos: map[string]int{}}
}

// fields is the text of the exported fields of a record.
func fields(x interface{}) string {
	v := reflect.ValueOf(x)
	var b []byte
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).PkgPath == "" {
			b = fmt.Appendf(b, "%q:%v|", v.Type().Field(i).Name, v.Field(i).Interface())
		}
	}
	return string(b)
}

func runActions(r *Run) {
	s := r.src
	ids := map[string]string{}
	claim := func(id, what string) {
		if id == "" {
			r.fail("no-id", "%s has no ID", what)
		}
		if other, ok := ids[id]; ok {
			r.fail("id-twice", "%s and %s have the same ID %s", other, what, id)
		}
		ids[id] = what
	}
	most := 4 // actions per call
	busy := s.Chance(1, 200)
	if busy {
		most = 40
	}
	serial := 0
	name := func() string { // often the same content again
		serial++
		if s.Chance(1, 4) {
			return "same"
		}
		return fmt.Sprintf("o%d", serial)
	}
	hosts := 1 + s.N(3)
	pids := make([]int, hosts)
	for life, lives := 0, 1+s.N(3); life < lives; life++ {
		if life > 0 {
			r.fault("restart")
		}
		r.process(func() {
			host := s.N(hosts) // each counts its own processes
			pids[host]++
			xidMachine, xidPid = []byte{1, 2, byte(3 + host)}, pids[host]
			if s.Chance(1, 2) {
				xidCounter = []uint32{0, 1, 2, 1<<24 - 2}[s.N(4)]
			}
			n := 1 + s.N(4)
			lists := make([]*strategy.Actions, n)
			want := make([]*tally, n)
			fns := make([]func(), n)
			for i := range fns {
				i := i
				lists[i] = &strategy.Actions{}
				want[i] = newTally()
				rounds := 1 + s.N(6)
				if busy {
					rounds *= 8
				}
				fns[i] = func() {
					for k := 0; k < rounds; k++ {
						r.clockFault()
						r.addActions(lists[i], want[i], most, name, claim)
						r.state(21, n, i, k, life, len(lists[i].CreateOrders), len(lists[i].Annotations))
					}
				}
			}
			r.parallel(fns...)
			for i := range lists {
				r.checkActions(lists[i], want[i], i, claim)
			}
		})
	}
}

func (r *Run) clockFault() {
	s := r.src
	switch s.N(6) {
	case 0: // stands still
		r.fault("clock-stands")
	case 1:
		r.fault("clock-back")
		r.clock -= int64(1+s.N(100)) * 1e9
	case 2:
		r.fault("clock-jump")
		r.clock += int64(s.N(1000000)) * 1e9
	default:
		r.advance(int64(s.N(2000)) * 1e6)
	}
}

func (r *Run) addActions(a *strategy.Actions, w *tally, most int, name func() string, claim func(id, what string)) {
	s := r.src
	num := func() float64 {
		if s.Chance(1, 8) {
			return r.finite()
		}
		return float64(s.N(5))
	}
	act := func() market.ActionType {
		return []market.ActionType{market.BuyAction, market.SellAction, ""}[s.N(3)]
	}
	typ := func() market.OrderType {
		return []market.OrderType{market.LimitOrder, market.MarketOrder, market.ClosePosition, market.TakeProfit, market.StopLoss, ""}[s.N(6)]
	}
	preset := func() string {
		if s.Chance(1, 4) {
			return "preset"
		}
		return ""
	}
	again := func() bool { return s.Chance(1, 8) } // the action before, once more
	n := s.N(most)
	switch s.N(7) {
	case 0:
		list := make([]strategy.CreateOrderAction, n)
		for i := range list {
			list[i] = strategy.CreateOrderAction{Symbol: name(), ActionType: act(), OrderType: typ(), Price: num(), Volume: num(), StopLoss: num(), TakeProfit: num(), Slippage: num()}
			if i > 0 && again() {
				list[i] = list[i-1]
				list[i].ID = ""
			}
			w.create[fields(list[i])]++
			list[i].ID = preset()
		}
		r.lib("AddCreateOrders", func() { a.AddCreateOrders(list...) })
		for i := range list {
			list[i] = strategy.CreateOrderAction{} // the caller reuses its memory
		}
	case 1:
		list := make([]strategy.UpdateOrderAction, n)
		for i := range list {
			list[i] = strategy.UpdateOrderAction{OrderID: name(), Price: num(), Volume: num(), StopLoss: num(), TakeProfit: num(), Slippage: num()}
			if i > 0 && again() {
				list[i] = list[i-1]
				list[i].ID = ""
			}
			w.update[fields(list[i])]++
			list[i].ID = preset()
		}
		r.lib("AddUpdateOrders", func() { a.AddUpdateOrders(list...) })
		for i := range list {
			list[i] = strategy.UpdateOrderAction{}
		}
	case 2:
		list := make([]strategy.CancelOrderAction, n)
		for i := range list {
			list[i] = strategy.CancelOrderAction{OrderID: name()}
			if i > 0 && again() {
				list[i] = list[i-1]
				list[i].ID = ""
			}
			w.cancel[fields(list[i])]++
			list[i].ID = preset()
		}
		r.lib("AddCancelOrders", func() { a.AddCancelOrders(list...) })
		for i := range list {
			list[i] = strategy.CancelOrderAction{}
		}
	case 3:
		list := make([]strategy.UpdatePositionAction, n)
		for i := range list {
			list[i] = strategy.UpdatePositionAction{PositionID: name(), ActionType: act(), OrderType: typ(), Volume: num(), StopLoss: num(), TakeProfit: num(), Slippage: num()}
			if i > 0 && again() {
				list[i] = list[i-1]
				list[i].ID = ""
			}
			w.upos[fields(list[i])]++
			list[i].ID = preset()
		}
		r.lib("AddUpdatePositions", func() { a.AddUpdatePositions(list...) })
		for i := range list {
			list[i] = strategy.UpdatePositionAction{}
		}
	case 4:
		list := make([]strategy.ClosePositionAction, n)
		for i := range list {
			list[i] = strategy.ClosePositionAction{PositionID: name()}
			if i > 0 && again() {
				list[i] = list[i-1]
				list[i].ID = ""
			}
			w.cpos[fields(list[i])]++
			list[i].ID = preset()
		}
		r.lib("AddClosePositions", func() { a.AddClosePositions(list...) })
		for i := range list {
			list[i] = strategy.ClosePositionAction{}
		}
	case 5:
		list := make([]strategy.Annotation, n, n+2)
		for i := range list {
			if len(w.notes) > 0 && again() {
				list[i] = w.notes[len(w.notes)-1]
				if s.Chance(1, 2) { // made by hand
					list[i] = strategy.Annotation{Label: name()}
				}
				w.notes = append(w.notes, list[i])
				continue
			}
			t, p, label, tip := int64(s.N(100)), num(), name(), name()
			var x *strategy.Annotation
			r.lib("NewAnnotation", func() { x = strategy.NewAnnotation(t, p, label, tip) })
			if x.Time != t || x.Price != p || x.Label != label || x.Tooltip != tip {
				r.fail("annotation", "an annotation lost what it was given: %+v", *x)
			}
			claim(x.ID, "annotation "+label)
			list[i] = *x
			w.notes = append(w.notes, *x)
		}
		r.lib("AddAnnotations", func() { a.AddAnnotations(list...) })
		for i := range list {
			list[i] = strategy.Annotation{}
		}
	case 6:
		f := newFills(r)
		p := r.newPosition(f.trade(market.BuyAction, 1))
		claim(p.ID, "position")
	}
	r.eval(uint64(n))
}

func (r *Run) checkActions(a *strategy.Actions, w *tally, i int, claim func(id, what string)) {
	bad := func(kind string, got, want int) {
		r.fail("lost-action", "list %d holds %d %s actions that were added %d times", i, got, kind, want)
	}
	create := map[string]int{}
	for id, x := range a.CreateOrders {
		if id != x.ID {
			r.fail("key", "an action with ID %s is listed under %s", x.ID, id)
		}
		claim(id, "create action "+x.Symbol)
		x.ID = ""
		create[fields(x)]++
	}
	for x, n := range w.create {
		if create[x] != n {
			bad("create", create[x], n)
		}
	}
	update := map[string]int{}
	for id, x := range a.UpdateOrders {
		if id != x.ID {
			r.fail("key", "an action with ID %s is listed under %s", x.ID, id)
		}
		claim(id, "update action "+x.OrderID)
		x.ID = ""
		update[fields(x)]++
	}
	for x, n := range w.update {
		if update[x] != n {
			bad("update", update[x], n)
		}
	}
	cancel := map[string]int{}
	for id, x := range a.CancelOrders {
		if id != x.ID {
			r.fail("key", "an action with ID %s is listed under %s", x.ID, id)
		}
		claim(id, "cancel action "+x.OrderID)
		x.ID = ""
		cancel[fields(x)]++
	}
	for x, n := range w.cancel {
		if cancel[x] != n {
			bad("cancel", cancel[x], n)
		}
	}
	upos := map[string]int{}
	for id, x := range a.UpdatePositions {
		if id != x.ID {
			r.fail("key", "an action with ID %s is listed under %s", x.ID, id)
		}
		claim(id, "position action "+x.PositionID)
		x.ID = ""
		upos[fields(x)]++
	}
	for x, n := range w.upos {
		if upos[x] != n {
			bad("position update", upos[x], n)
		}
	}
	cpos := map[string]int{}
	for id, x := range a.ClosePositions {
		if id != x.ID {
			r.fail("key", "an action with ID %s is listed under %s", x.ID, id)
		}
		claim(id, "close action "+x.PositionID)
		x.ID = ""
		cpos[fields(x)]++
	}
	for x, n := range w.cpos {
		if cpos[x] != n {
			bad("position close", cpos[x], n)
		}
	}
	if len(create) != len(w.create) || len(update) != len(w.update) || len(cancel) != len(w.cancel) || len(upos) != len(w.upos) || len(cpos) != len(w.cpos) {
		r.fail("extra-action", "list %d holds actions nobody added", i)
	}
	if len(a.Annotations) != len(w.notes) {
		r.fail("annotations", "list %d holds %d annotations, %d were added", i, len(a.Annotations), len(w.notes))
	}
	for k := range w.notes {
		if !same(a.Annotations[k], w.notes[k]) {
			r.fail("annotations", "annotation %d of list %d is %+v, not %+v", k, i, a.Annotations[k], w.notes[k])
		}
	}
	r.eval(uint64(len(create))<<16 | uint64(len(cancel))<<8 | uint64(len(w.notes)))
}
