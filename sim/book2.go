package main

import (
	"math"

	"github.com/vanclief/finmod/market"
)

func init() {
	scenarios["C13"] = &scenario{
		run:      runIsolation,
		rule:     "2 to 4 tasks build books from windows of one shared snapshot buffer and feed them, preempted at single statements, while the owner of the buffer may reuse it; non-trivial: at least one preemption or fault; distinct: signature over schedule, faults and books",
		quick:    540000,
		thorough: 6000000,
		assume:   []string{"a book is used by one task at a time; books are built while nobody writes the snapshot"},
	}
	scenarios["C17"] = &scenario{
		run:      twins(runOverlap),
		rule:     "two venues with independently faulty feeds, overlap queried after updates in both directions, in one run of eight as two such tasks preempted at single statements; non-trivial: at least one fault; distinct: signature over faults, books and answers",
		quick:    600000,
		thorough: 8000000,
	}
}

// isoBook is one task's book with what it is fed.
type isoBook struct {
	depth  int
	na, nb int // window of the shared snapshot
	ups    []market.OrderBookUpdate
	want   []market.OrderBook // after the snapshot and after every update, fed alone
	ob     market.OrderBook
	built  bool
	at     int
}

func runIsolation(r *Run) {
	s := r.src
	v := newVenue(r)
	asks0, bids0 := v.snapshot()

	// one buffer holds the whole snapshot message
	buf := make([]market.OrderBookRow, 0, len(asks0)+len(bids0)+8)
	buf = append(buf, asks0...)
	spare := s.N(3)
	for i := 0; i < spare; i++ {
		buf = append(buf, market.OrderBookRow{Price: -7, Volume: -7, AccumVolume: -7})
	}
	bidsAt := len(buf)
	buf = append(buf, bids0...)
	asks, bids := buf[:len(asks0)], buf[bidsAt:]
	pristine := cloneRows(buf)

	n := 2 + s.N(3)
	books := make([]*isoBook, n)
	link := r.swarmLink()
	ups := v.publish(25)
	for i := range books {
		b := &isoBook{depth: r.depth(10), na: len(asks), nb: len(bids)}
		if s.Chance(1, 3) {
			b.na = s.N(len(asks) + 1)
			b.nb = s.N(len(bids) + 1)
		}
		for _, m := range r.transmit(len(ups), 1e8, link) {
			b.ups = append(b.ups, ups[m.item])
		}
		for k := s.N(6); k > 0; k-- {
			b.ups = append(b.ups, v.stranger())
		}
		books[i] = b
	}
	for _, b := range books { // what they show when fed alone
		alone := r.newBook(cloneRows(asks[:b.na]), cloneRows(bids[:b.nb]), b.depth)
		b.want = append(b.want, cloneBook(alone))
		for _, u := range b.ups {
			r.mustApply(&alone, u)
			b.want = append(b.want, cloneBook(alone))
		}
	}
	checkAll := func(who int, reused bool) {
		if !reused && !sameRows(buf, pristine) {
			r.fail("snapshot-changed", "work on book %d changed the caller's snapshot from %s to %s", who, rowsText(pristine), rowsText(buf))
		}
		for j, o := range books {
			if j == who || !o.built || o.at < 0 {
				continue
			}
			if !sameBook(o.ob, o.want[o.at]) {
				r.fail("book-changed", "work on book %d changed book %d from %s to %s", who, j, bookText(o.want[o.at]), bookText(o.ob))
			}
		}
	}
	reused := false
	task := func(i int) func() {
		return func() {
			b := books[i]
			b.ob = r.newBook(asks[:b.na], bids[:b.nb], b.depth)
			b.built = true
			check := func() {
				if !sameBook(b.ob, b.want[b.at]) {
					r.fail("not-alone", "book %d fed among others shows %s, fed alone it shows %s", i, bookText(b.ob), bookText(b.want[b.at]))
				}
				checkAll(i, reused)
				r.eval(hashBook(b.ob))
				r.state(4, n, i, b.at, len(b.ob.Asks), len(b.ob.Bids), b2i(reused))
			}
			check()
			for k, u := range b.ups {
				b.at = -1 // in progress
				r.mustApply(&b.ob, u)
				b.at = k + 1
				check()
			}
		}
	}
	fns := make([]func(), n)
	for i := range fns {
		fns[i] = task(i)
	}
	mode := s.N(3)
	if mode == 2 { // build all first, reuse the buffer, then feed
		for _, b := range books {
			b.ob = r.newBook(asks[:b.na], bids[:b.nb], b.depth)
			b.built = true
			checkAll(-1, false)
		}
		r.fault("buffer-reused")
		for i := range buf {
			buf[i] = market.OrderBookRow{Price: float64(1 + s.N(9)), Volume: 999}
		}
		reused = true
		checkAll(-1, true)
		for i := range fns {
			i := i
			fns[i] = func() {
				b := books[i]
				for k, u := range b.ups {
					b.at = -1
					r.mustApply(&b.ob, u)
					b.at = k + 1
					if !sameBook(b.ob, b.want[b.at]) {
						r.fail("not-alone", "book %d fed among others shows %s, fed alone it shows %s", i, bookText(b.ob), bookText(b.want[b.at]))
					}
					checkAll(i, true)
					r.eval(hashBook(b.ob))
				}
			}
		}
	}
	r.parallel(fns...)
	for _, b := range books {
		b.at = len(b.ups)
	}
	checkAll(-1, reused)
}

// overlapRef is the value of an overlap of asks with higher bids.
func overlapRef(asks, bids []market.OrderBookRow) (value, gross float64) {
	var a, b []market.OrderBookRow
	for _, x := range asks {
		if x.Price <= bids[0].Price {
			a = append(a, x)
		}
	}
	for _, x := range bids {
		if x.Price >= asks[0].Price {
			b = append(b, x)
		}
	}
	vol, cost := 0.0, 0.0
	for _, x := range a {
		vol += x.Volume
		cost += x.Volume * x.Price
	}
	left, got := vol, 0.0
	for i := len(b) - 1; i >= 0 && left > 0; i-- {
		q := math.Min(left, b[i].Volume)
		got += q * b[i].Price
		left -= q
	}
	return math.Abs(cost - got), cost + got
}

func runOverlap(r *Run) {
	s := r.src
	va := newVenue(r)
	// the second venue trades the same asset, somewhat cheaper or dearer
	lo := va.lo + s.Range(0, 24) - 12
	if lo < 1 {
		lo = 1
	}
	vb := newVenueAt(r, va.tick, lo, lo+2+r.span())
	if s.Chance(1, 2) {
		va.vols, vb.vols = 0, 0
	}
	fs := []*feed{
		newFeedOn(r, va, r.depth(10), 20, r.swarmLink()),
		newFeedOn(r, vb, r.depth(10), 20, r.swarmLink()),
	}
	pos := []int{0, 0}
	r.checkOverlap(&fs[0].ob, &fs[1].ob)
	for {
		i := s.N(2)
		if pos[i] == len(fs[i].in) {
			i = 1 - i
		}
		if pos[i] == len(fs[i].in) {
			break
		}
		r.mustApply(&fs[i].ob, fs[i].ups[fs[i].in[pos[i]].item])
		pos[i]++
		r.checkOverlap(&fs[0].ob, &fs[1].ob)
	}
}

func (r *Run) overlap(a, b market.OrderBook) (value float64, err error) {
	r.lib("CalculateOverlap", func() { value, err = market.CalculateOverlap(a, b) })
	return value, err
}

func (r *Run) checkOverlap(a, b *market.OrderBook) {
	s := r.src
	has := func(x, y *market.OrderBook) bool {
		return len(x.Asks) > 0 && len(y.Bids) > 0 && x.Asks[0].Price < y.Bids[0].Price
	}
	want := has(a, b) || has(b, a)
	ba, bb := cloneBook(*a), cloneBook(*b)
	v1, e1 := r.overlap(*a, *b)
	v2, e2 := r.overlap(*b, *a)
	text := func() string { return bookText(*a) + " and " + bookText(*b) }
	if r.tracing {
		r.logf("overlap of %s -> %v, %s", text(), v1, errText(e1))
	}
	if (e1 == nil) != want || (e2 == nil) != want {
		r.fail("overlap-found", "overlap exists: %v, first order answers %s, second %s; %s", want, errText(e1), errText(e2), text())
	}
	if !sameBook(ba, *a) || !sameBook(bb, *b) {
		r.fail("overlap-mutates", "an overlap query changed a book: %s", text())
	}
	r.state(5, len(a.Asks), len(a.Bids), len(b.Asks), len(b.Bids), b2i(want))
	if !want {
		r.eval(0)
		return
	}
	seller, buyer := a, b
	if !has(a, b) {
		seller, buyer = b, a
	}
	ref, gross := overlapRef(seller.Asks, buyer.Bids)
	if !near(v1, v2, gross) {
		r.fail("overlap-order", "the overlap is %v in one order and %v in the other; %s", v1, v2, text())
	}
	if !near(v1, ref, gross) {
		r.fail("overlap-value", "the overlap is worth %v, not %v; %s", v1, ref, text())
	}
	if s.Chance(1, 3) { // levels outside the overlap are irrelevant
		x, y := market.OrderBook{MaxDepth: seller.MaxDepth}, market.OrderBook{MaxDepth: buyer.MaxDepth}
		for _, l := range seller.Asks {
			if l.Price <= buyer.Bids[0].Price {
				x.Asks = append(x.Asks, l)
			}
		}
		for _, l := range buyer.Bids {
			if l.Price >= seller.Asks[0].Price {
				y.Bids = append(y.Bids, l)
			}
		}
		v, err := r.overlap(x, y)
		if err != nil || !near(v, v1, gross) {
			r.fail("overlap-outside", "without the levels outside the overlap it is %v (%s) instead of %v; %s", v, errText(err), v1, text())
		}
		x, y = cloneBook(*a), cloneBook(*b)
		for _, rows := range [][]market.OrderBookRow{x.Asks, x.Bids, y.Asks, y.Bids} {
			for i := range rows {
				rows[i].Volume *= 2
				rows[i].AccumVolume *= 2
			}
		}
		v, err = r.overlap(x, y)
		if err != nil || !near(v, 2*v1, 2*gross) {
			r.fail("overlap-scale", "with doubled volumes the overlap is %v (%s) instead of %v; %s", v, errText(err), 2*v1, text())
		}
	}
	r.eval(hashFloat(0, v1))
}
