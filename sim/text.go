package main

import (
	"fmt"
	"os"
	"reflect"
	"strings"
	"time"

	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
	"github.com/vanclief/state/interfaces"
)

func init() {
	scenarios["C27"] = &scenario{
		run:      runLog,
		rule:     "tasks log shared records - read from a failing store, half filled, empty, live books - preempted at single statements, to an output on a failing disk; non-trivial: at least one preemption or fault; distinct: signature over schedule, faults and records",
		quick:    300000,
		thorough: 2000000,
		real:     []string{"fmt and os.File of the standard library"},
		stub:     []string{"the system calls of the output (in-memory disk with injected faults)", "the database (rows as JSON, faults before and after the effect)"},
	}
}

// printable are the records that turn themselves into text.
var printable = []func() fmt.Stringer{
	func() fmt.Stringer { return &market.Order{} },
	func() fmt.Stringer { return &market.Position{} },
	func() fmt.Stringer { return &market.Trade{} },
	func() fmt.Stringer { return &strategy.Annotation{} },
	func() fmt.Stringer { return &market.OrderRequest{} },
	func() fmt.Stringer { return &market.PositionCloseOrder{} },
	func() fmt.Stringer { return &market.Candle{} },
	func() fmt.Stringer { return &market.OrderBook{} },
	func() fmt.Stringer { return &market.OrderBookRow{} },
	func() fmt.Stringer { return &market.Ticker{} },
	func() fmt.Stringer { return &market.BalanceSnapshot{} },
	func() fmt.Stringer { return &market.AssetsSnapshot{} },
	func() fmt.Stringer { return &market.Balance{} },
	func() fmt.Stringer { return &market.Asset{} },
	func() fmt.Stringer { return &market.Pair{} },
	func() fmt.Stringer { return &strategy.AddAnnotationsAction{} },
	func() fmt.Stringer { return &indicators.WilliamFractal{} },
}

// entry is a record with the text it gives alone.
type entry struct {
	name string
	rec  fmt.Stringer
	was  reflect.Value
	text string
}

func runLog(r *Run) {
	s := r.src
	time.Local = time.UTC
	db := newDB(r)
	var list []*entry
	add := func(rec fmt.Stringer) *entry {
		v := reflect.ValueOf(rec).Elem()
		e := &entry{name: v.Type().Name(), rec: rec, was: reflect.New(v.Type()).Elem()}
		copyValue(e.was, v)
		r.lib(e.name+".String", func() { e.text = rec.String() })
		r.logf("log %s: %q", e.name, e.text)
		twin := reflect.New(v.Type())
		copyValue(twin.Elem(), v)
		var again string
		r.lib(e.name+".String", func() { again = twin.Interface().(fmt.Stringer).String() })
		if again != e.text {
			r.fail("text-of-memory", "two equal records of type %s print as %q and %q", e.name, e.text, again)
		}
		list = append(list, e)
		return e
	}
	for i, n := 0, 1+s.N(5); i < n; i++ {
		k := s.N(len(printable))
		rec := printable[k]()
		v := reflect.ValueOf(rec).Elem()
		switch s.N(3) {
		case 0: // as it was made
			r.fill(v)
		case 1: // half of it
			r.fault("half-filled")
			for j := 0; j < v.NumField(); j++ {
				if s.Chance(1, 2) {
					r.fill(v.Field(j))
				}
			}
		case 2: // nothing
			r.fault("empty")
		}
		if m, ok := rec.(interfaces.Model); ok && s.Chance(1, 2) {
			// what the store hands over, or what it leaves behind when it fails
			if s.Chance(1, 2) {
				setID(m, []string{"", "1", "1234567", "12345678", "123456789", "é日本日本"}[s.N(6)])
			}
			db.fail.get, db.fail.before, db.fail.after = 0, 0, 0
			if err := db.Insert(m); err != nil {
				r.fail("store", "%v", err)
			}
			db.fail.get = s.Rate()
			back := printable[k]()
			if db.Get(back.(interfaces.Model), m.GetID()) == nil {
				if d := diffModels(m, back.(interfaces.Model)); d != "" {
					r.fail("store", "%s comes back different: %s", reflect.TypeOf(m).Elem().Name(), d)
				}
			}
			rec = back
		}
		e := add(rec)
		if m, ok := rec.(interfaces.Model); ok {
			id := []rune(m.GetID())
			if len(id) > 2 {
				id = id[:2]
			}
			if !strings.Contains(e.text, string(id)) {
				r.fail("no-id", "the text of a %s with ID %q does not say so: %q", e.name, m.GetID(), e.text)
			}
		}
	}
	f := newFeed(r, r.depth(8), 8, linkFaults{})
	for _, m := range f.in {
		r.mustApply(&f.ob, f.ups[m.item])
	}
	add(&f.ob)
	r.printBook(&f.ob)

	same := func(by string) {
		for _, e := range list {
			if d := diffValue(e.was, reflect.ValueOf(e.rec).Elem()); d != "" {
				r.fail("log-changes", "logging %s changed a %s: %s", by, e.name, d)
			}
			if d := diffNil(e.was, reflect.ValueOf(e.rec).Elem()); d != "" {
				r.fail("log-changes", "logging %s changed a %s: %s", by, e.name, d)
			}
		}
	}
	same("")
	tasks := make([]func(), 1+s.N(3))
	out, done := r.openOutput()
	defer done()
	os.Stdout = out
	for i := range tasks {
		var mine []*entry
		for k, n := 0, 1+s.N(4); k < n; k++ {
			mine = append(mine, list[s.N(len(list))])
		}
		i := i
		tasks[i] = func() {
			for _, e := range mine {
				if e.rec == fmt.Stringer(&f.ob) && len(e.text)%2 == i%2 {
					r.lib("OrderBook.Print", func() { f.ob.Print() })
				}
				var text string
				r.lib(e.name+".String", func() { text = e.rec.String() })
				if text != e.text {
					r.fail("log-differs", "the text of a %s is %q among other tasks and %q alone", e.name, text, e.text)
				}
				same("a " + e.name)
				r.state(32, len(tasks), i, len(e.name))
				r.eval(hashStr(uint64(i), e.text))
			}
		}
	}
	r.parallel(tasks...)
	same("")
	for k := s.N(4); k > 0; k-- { // a record goes on changing; elsewhere an equal one gives the same text
		e := list[s.N(len(list))]
		v := reflect.ValueOf(e.rec).Elem()
		r.fill(v.Field(s.N(v.NumField())))
		twin := reflect.New(v.Type())
		copyValue(twin.Elem(), v)
		var here, there string
		r.lib(e.name+".String", func() { here = e.rec.String() })
		r.process(func() {
			r.lib(e.name+".String", func() { there = twin.Interface().(fmt.Stringer).String() })
		})
		if here != there {
			r.fail("text-of-the-past", "two equal records of type %s print as %q in a process that has logged before and as %q in a new one", e.name, here, there)
		}
		r.eval(hashStr(9, here))
	}
}

// diffNil names the first list or map that is nil on one side only; they are
// told apart by their stored form.
func diffNil(a, b reflect.Value) string {
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue
			}
			if d := diffNil(a.Field(i), b.Field(i)); d != "" {
				return a.Type().Field(i).Name + ": " + d
			}
		}
	case reflect.Slice, reflect.Map:
		if a.IsNil() != b.IsNil() {
			return "missing on one side, empty on the other"
		}
		for i := 0; a.Kind() == reflect.Slice && i < a.Len(); i++ {
			if d := diffNil(a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
	}
	return ""
}

// openOutput is an output on the simulated disk; done puts the real one back.
func (r *Run) openOutput() (out *os.File, done func()) {
	out, err := os.OpenFile(diskRoot+"stdout", os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		r.fail("output", "%v", err)
	}
	stdout := os.Stdout
	return out, func() {
		os.Stdout = stdout
		out.Close()
	}
}

// printBook prints a book on an output that works, and on one that fails.
func (r *Run) printBook(ob *market.OrderBook) {
	s := r.src
	out, done := r.openOutput()
	defer done()
	data := &r.fs.files[diskRoot+"stdout"].data
	os.Stdout = out
	before := cloneBook(*ob)
	print := func() string {
		*data = nil
		r.lib("OrderBook.Print", func() { ob.Print() })
		if !sameBook(before, *ob) {
			r.fail("print-changes", "printing changed the book from %s to %s", bookText(before), bookText(*ob))
		}
		return string(*data)
	}
	text := print()
	at := 0
	next := func(x market.OrderBookRow, what string) {
		p := fmt.Sprint(x.Price)
		k := strings.Index(text[at:], p)
		if k < 0 {
			r.fail("print-order", "%s level %v of %s is not where it belongs in %q", what, x.Price, bookText(*ob), text)
		}
		at += k + len(p)
	}
	for i := len(ob.Asks) - 1; i >= 0; i-- {
		next(ob.Asks[i], "ask")
	}
	for _, x := range ob.Bids {
		next(x, "bid")
	}
	r.eval(hashStr(7, text))
	if s.Chance(1, 2) {
		r.fs.f = FSFaults{writeErr: 300, shortWrite: 300, writeEINTR: 200}
		print()
		r.fs.heal()
		r.eval(8)
	}
}
