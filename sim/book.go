package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"

	"github.com/vanclief/finmod/market"
)

// venue is the exchange's own order book; levels are counted in ticks.
type venue struct {
	r          *Run
	tick       float64
	asks, bids map[int]float64
	touched    map[int]bool // every tick ever used
	lo, hi     int
	vols       int
	most       float64 // the largest volume so far
}

func (v *venue) price(k int) float64 { return float64(k) * v.tick }

func (v *venue) volume() float64 {
	x := v.anyVolume(v.vols)
	v.most = math.Max(v.most, x)
	return x
}

func (v *venue) anyVolume(kind int) float64 {
	s := v.r.src
	switch kind {
	case 0:
		return float64(1 + s.N(9))
	case 1:
		return float64(1+s.N(999)) / 100
	case 2:
		return float64(1+s.N(1<<20)) * 1e-8
	case 3:
		return float64(1+s.N(1000)) * 1e6
	case 4:
		return float64(1+s.N(999)) * 1e-12
	}
	return v.anyVolume(s.N(5)) // dust beside whales
}

func newVenue(r *Run) *venue {
	s := r.src
	ticks := []float64{1, 0.5, 0.01, 0.1, 1e-8, 25, 0.3, 1e-12, 1e6}
	tick := ticks[s.N(len(ticks))]
	lo := 1 + s.N(5)
	if s.Chance(1, 3) {
		lo = 1 + s.N(100000)
		if s.Chance(1, 4) { // ticks far finer than the price
			lo += s.N(500000000)
		}
	}
	return newVenueAt(r, tick, lo, lo+2+r.span())
}

// span draws over how many ticks a venue trades.
func (r *Run) span() int {
	if r.large() {
		return 30 + r.src.N(300)
	}
	return r.src.N(30)
}

// large says whether this run has large books.
func (r *Run) large() bool {
	if r.size == 0 {
		r.size = 1
		if r.src.Chance(1, 48) {
			r.size = 2
		}
	}
	return r.size == 2
}

// depth draws the maximum depth of a book.
func (r *Run) depth(n int) int {
	if r.src.Chance(1, 64) {
		return 0
	}
	if r.large() {
		return 1 + r.src.N(200)
	}
	return 1 + r.src.N(n)
}

func newVenueAt(r *Run, tick float64, lo, hi int) *venue {
	s := r.src
	v := &venue{r: r, tick: tick, lo: lo, hi: hi, asks: map[int]float64{}, bids: map[int]float64{}, touched: map[int]bool{}}
	v.vols = s.N(6)
	mid := s.Range(v.lo, v.hi)
	density := 1 + s.N(10)
	for k := v.lo; k < mid; k++ {
		if s.Chance(density, 10) {
			v.bids[k] = v.volume()
			v.touched[k] = true
		}
	}
	for k := mid + 1; k <= v.hi; k++ {
		if s.Chance(density, 10) {
			v.asks[k] = v.volume()
			v.touched[k] = true
		}
	}
	return v
}

func keys(m map[int]float64) []int {
	out := make([]int, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func (v *venue) bestAsk() (int, bool) {
	ks := keys(v.asks)
	if len(ks) == 0 {
		return 0, false
	}
	return ks[0], true
}

func (v *venue) bestBid() (int, bool) {
	ks := keys(v.bids)
	if len(ks) == 0 {
		return 0, false
	}
	return ks[len(ks)-1], true
}

// snapshot returns the venue's levels in an arbitrary order.
func (v *venue) snapshot() (asks, bids []market.OrderBookRow) {
	for _, k := range keys(v.asks) {
		asks = append(asks, market.OrderBookRow{Price: v.price(k), Volume: v.asks[k]})
	}
	for _, k := range keys(v.bids) {
		bids = append(bids, market.OrderBookRow{Price: v.price(k), Volume: v.bids[k]})
	}
	s := v.r.src
	if s.Chance(1, 2) {
		shuffle(s, asks)
		shuffle(s, bids)
	}
	if s.Chance(1, 4) { // what the caller left in the derived field is not data
		for i := range asks {
			asks[i].AccumVolume = float64(s.N(100))
		}
		for i := range bids {
			bids[i].AccumVolume = float64(s.N(100))
		}
	}
	return asks, bids
}

func shuffle(s *Src, rows []market.OrderBookRow) {
	for i := len(rows) - 1; i > 0; i-- {
		j := i - s.N(i+1)
		rows[i], rows[j] = rows[j], rows[i]
	}
}

// step lets the market move; it returns the updates the venue publishes.
func (v *venue) step() []market.OrderBookUpdate {
	s := v.r.src
	var out []market.OrderBookUpdate
	set := func(side string, k int, vol float64) {
		m := v.asks
		if side == "bid" {
			m = v.bids
		}
		if vol == 0 {
			delete(m, k)
		} else {
			m[k] = vol
		}
		v.touched[k] = true
		out = append(out, market.OrderBookUpdate{Price: v.price(k), Volume: vol, Side: side})
	}
	side := []string{"ask", "bid"}[s.N(2)]
	own := v.asks
	if side == "bid" {
		own = v.bids
	}
	switch s.N(6) {
	case 0, 1: // place or change a level that does not cross
		lo, hi := v.lo, v.hi
		if side == "ask" {
			if b, ok := v.bestBid(); ok {
				lo = b + 1
			}
		} else if a, ok := v.bestAsk(); ok {
			hi = a - 1
		}
		if lo <= hi {
			set(side, s.Range(lo, hi), v.volume())
		}
	case 2: // cancel a level
		if ks := keys(own); len(ks) > 0 {
			set(side, ks[s.N(len(ks))], 0)
		}
	case 3: // a large order eats into the other side and rests
		k := s.Range(v.lo, v.hi)
		if side == "ask" {
			for _, b := range keys(v.bids) {
				if b >= k {
					set("bid", b, 0)
				}
			}
		} else {
			for _, a := range keys(v.asks) {
				if a <= k {
					set("ask", a, 0)
				}
			}
		}
		set(side, k, v.volume())
	case 4: // the same, but the venue leaves the crossed levels to the client
		k := s.Range(v.lo, v.hi)
		if side == "ask" {
			for _, b := range keys(v.bids) {
				if b >= k {
					delete(v.bids, b)
				}
			}
		} else {
			for _, a := range keys(v.asks) {
				if a <= k {
					delete(v.asks, a)
				}
			}
		}
		set(side, k, v.volume())
	case 5: // change the volume of a resting level
		if ks := keys(own); len(ks) > 0 {
			set(side, ks[s.N(len(ks))], v.volume())
		}
	}
	return out
}

// publish runs the venue for a while and returns all it published.
func (v *venue) publish(maxSteps int) []market.OrderBookUpdate {
	if v.r.large() {
		maxSteps *= 6
		if v.r.src.Chance(1, 40) { // a long day
			maxSteps *= 15
		}
	}
	var out []market.OrderBookUpdate
	for i, n := 0, v.r.src.N(maxSteps+1); i < n; i++ {
		out = append(out, v.step()...)
	}
	return out
}

// stranger is an update no level of the venue stands behind.
func (v *venue) stranger() market.OrderBookUpdate {
	s := v.r.src
	u := market.OrderBookUpdate{Side: []string{"ask", "bid"}[s.N(2)], Price: v.price(s.Range(v.lo, v.hi))}
	if s.Chance(1, 4) {
		u.Price += v.tick / 2
	}
	if s.Chance(1, 2) {
		u.Volume = v.volume()
	}
	return u
}

// model is the reference book: what the delivered updates say.
type model struct {
	asks, bids []market.OrderBookRow // best first; only Price and Volume are used
	depth      int
}

func newModel(asks, bids []market.OrderBookRow, depth int) *model {
	m := &model{depth: depth}
	for _, x := range asks {
		m.asks = append(m.asks, market.OrderBookRow{Price: x.Price, Volume: x.Volume})
	}
	for _, x := range bids {
		m.bids = append(m.bids, market.OrderBookRow{Price: x.Price, Volume: x.Volume})
	}
	m.order()
	return m
}

func (m *model) order() {
	sort.Slice(m.asks, func(i, j int) bool { return m.asks[i].Price < m.asks[j].Price })
	sort.Slice(m.bids, func(i, j int) bool { return m.bids[i].Price > m.bids[j].Price })
	if len(m.asks) > m.depth {
		m.asks = m.asks[:m.depth]
	}
	if len(m.bids) > m.depth {
		m.bids = m.bids[:m.depth]
	}
}

func (m *model) apply(u market.OrderBookUpdate) {
	own, other := &m.asks, &m.bids
	crossed := func(p float64) bool { return p >= u.Price }
	if u.Side == "bid" {
		own, other = &m.bids, &m.asks
		crossed = func(p float64) bool { return p <= u.Price }
	}
	var kept []market.OrderBookRow
	for _, x := range *own {
		if x.Price != u.Price {
			kept = append(kept, x)
		}
	}
	if u.Volume != 0 {
		kept = append(kept, market.OrderBookRow{Price: u.Price, Volume: u.Volume})
		var rest []market.OrderBookRow
		for _, x := range *other {
			if !crossed(x.Price) {
				rest = append(rest, x)
			}
		}
		*other = rest
	}
	*own = kept
	m.order()
}

// sameLevels compares visible levels, leaving derived fields aside.
func sameLevels(a, b []market.OrderBookRow) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Price != b[i].Price || a[i].Volume != b[i].Volume {
			return false
		}
	}
	return true
}

func updateText(u market.OrderBookUpdate) string {
	return fmt.Sprintf("%s %v:%v", u.Side, u.Price, u.Volume)
}

// newBook builds a live book from a snapshot.
func (r *Run) newBook(asks, bids []market.OrderBookRow, depth int) (ob market.OrderBook) {
	r.lib("NewOrderBook", func() { ob = market.NewOrderBook(asks, bids, depth) })
	if r.tracing {
		r.logf("snapshot bids=%s asks=%s depth=%d -> %s", rowsText(bids), rowsText(asks), depth, bookText(ob))
	}
	return ob
}

func (r *Run) applyUpdate(ob *market.OrderBook, u market.OrderBookUpdate) (err error) {
	r.lib("ApplyUpdate", func() { err = ob.ApplyUpdate(u) })
	if r.tracing {
		r.logf("update %s -> %s, %s", updateText(u), bookText(*ob), errText(err))
	}
	return err
}

// wellFormed returns what is wrong with a book, or "".
func wellFormed(ob market.OrderBook) string {
	for i, x := range ob.Asks {
		if x.Volume == 0 {
			return fmt.Sprintf("ask level %v has no volume", x.Price)
		}
		if i > 0 && !(ob.Asks[i-1].Price < x.Price) {
			return fmt.Sprintf("ask level %v follows %v", x.Price, ob.Asks[i-1].Price)
		}
	}
	for i, x := range ob.Bids {
		if x.Volume == 0 {
			return fmt.Sprintf("bid level %v has no volume", x.Price)
		}
		if i > 0 && !(ob.Bids[i-1].Price > x.Price) {
			return fmt.Sprintf("bid level %v follows %v", x.Price, ob.Bids[i-1].Price)
		}
	}
	if len(ob.Asks) > ob.MaxDepth {
		return fmt.Sprintf("%d ask levels exceed the depth of %d", len(ob.Asks), ob.MaxDepth)
	}
	if len(ob.Bids) > ob.MaxDepth {
		return fmt.Sprintf("%d bid levels exceed the depth of %d", len(ob.Bids), ob.MaxDepth)
	}
	if len(ob.Asks) > 0 && len(ob.Bids) > 0 && !(ob.Bids[0].Price < ob.Asks[0].Price) {
		return fmt.Sprintf("best bid %v meets or crosses best ask %v", ob.Bids[0].Price, ob.Asks[0].Price)
	}
	return ""
}

// bookState is the abstract state of a book for the coverage count.
func (r *Run) bookState(ob market.OrderBook, u market.OrderBookUpdate, more int) {
	side, kind := 0, 0
	if u.Side == "bid" {
		side = 1
	}
	if u.Volume == 0 {
		kind = 1
	}
	rel := 0 // where the update falls
	own, other := ob.Asks, ob.Bids
	if side == 1 {
		own, other = ob.Bids, ob.Asks
	}
	better := func(a, b float64) bool {
		if side == 1 {
			return a > b
		}
		return a < b
	}
	for _, x := range own {
		if better(x.Price, u.Price) {
			rel++
		}
	}
	cross := 0
	for _, x := range other {
		if x.Price == u.Price || better(u.Price, x.Price) {
			cross++
		}
	}
	r.state(len(own), len(other), ob.MaxDepth, side, kind, rel, cross, more)
}

// feed drives one live book through a faulty feed and calls check before and
// after each delivered update.
type feed struct {
	r     *Run
	v     *venue
	ob    market.OrderBook
	m     *model
	depth int
	ups   []market.OrderBookUpdate
	in    []message
}

func newFeed(r *Run, depth, steps int, lf linkFaults) *feed {
	return newFeedOn(r, newVenue(r), depth, steps, lf)
}

func newFeedOn(r *Run, v *venue, depth, steps int, lf linkFaults) *feed {
	s := r.src
	f := &feed{r: r, v: v, depth: depth}
	asks, bids := f.v.snapshot()
	if s.Chance(1, 8) { // joined without a snapshot, living on updates alone
		asks, bids = nil, nil
	}
	f.m = newModel(asks, bids, f.depth)
	f.ob = r.newBook(asks, bids, f.depth)
	f.ups = f.v.publish(steps)
	if len(f.ups) > 0 && s.Chance(1, 3) { // updates of another session leak in
		for i, n := 0, 1+s.N(6); i < n; i++ {
			f.ups = append(f.ups, f.v.stranger())
			j := len(f.ups) - 1 - s.N(len(f.ups))
			f.ups[len(f.ups)-1], f.ups[j] = f.ups[j], f.ups[len(f.ups)-1]
		}
		r.fault("foreign-update")
	}
	f.in = r.transmit(len(f.ups), 1e8, lf)
	return f
}

// restart lets the node go down and come back with the book it had kept as JSON.
func (f *feed) restart() {
	r := f.r
	if !r.src.Chance(1, 100) {
		return
	}
	r.fault("restart")
	b, err := json.Marshal(f.ob)
	var ob market.OrderBook
	if err == nil {
		err = json.Unmarshal(b, &ob)
	}
	if err != nil {
		r.fail("book-json", "the book %s does not survive its JSON form: %v", bookText(f.ob), err)
	}
	f.ob = ob
}

var unknownSides = []string{"", "Ask", "BID", "buy", "sell", "asks", "bids", " ask"}

func init() {
	scenarios["C02"] = &scenario{
		run: twins(func(r *Run) {
			f := newFeed(r, r.depth(12), 60, r.swarmLink())
			if why := wellFormed(f.ob); why != "" {
				r.fail("malformed-snapshot", "the book built from a sound snapshot is malformed: %s; %s", why, bookText(f.ob))
			}
			badSides := r.src.Rate()
			for _, msg := range f.in {
				f.restart()
				u := f.ups[msg.item]
				if badSides > 0 && r.src.Chance(badSides, 1000) {
					r.fault("unknown-side")
					bad := u
					bad.Side = unknownSides[r.src.N(len(unknownSides))]
					before := cloneBook(f.ob)
					err := r.applyUpdate(&f.ob, bad)
					if err == nil {
						r.fail("unknown-side-accepted", "an update with side %q was accepted", bad.Side)
					}
					if !sameBook(before, f.ob) {
						r.fail("unknown-side-changed", "an update with side %q changed the book from %s to %s", bad.Side, bookText(before), bookText(f.ob))
					}
					r.eval(1)
				}
				r.bookState(f.ob, u, 0)
				before := bookTextIf(r, f.ob)
				if err := r.applyUpdate(&f.ob, u); err != nil {
					r.fail("update-refused", "update %s was refused: %v", updateText(u), err)
				}
				if why := wellFormed(f.ob); why != "" {
					r.fail("malformed", "after update %s on %s: %s; book is %s", updateText(u), before, why, bookText(f.ob))
				}
				r.eval(hashBook(f.ob))
			}
		}),
		rule:     "a venue moves a real book, a faulty feed (loss, duplication, delay, partition, foreign updates, unknown sides) delivers its updates to a live book, in one run of eight as two such tasks preempted at single statements; non-trivial: at least one fault struck; distinct: signature over faults and all visible books",
		quick:    1200000,
		thorough: 16000000,
	}

	scenarios["C03"] = &scenario{
		run: twins(func(r *Run) {
			f := newFeed(r, r.depth(12), 60, r.swarmLink())
			var twin *feed // another book on the same feed, which may miss an update
			if r.src.Chance(1, 5) {
				depth := r.depth(12)
				twin = &feed{r: r, v: f.v, depth: depth, m: newModel(f.m.asks, f.m.bids, depth)}
				twin.ob = r.newBook(cloneRows(f.ob.Asks), cloneRows(f.ob.Bids), depth)
			}
			check := func(f *feed, what string) {
				if !sameLevels(f.ob.Asks, f.m.asks) || !sameLevels(f.ob.Bids, f.m.bids) {
					r.fail("content", "%s: book shows bids=%s asks=%s, the delivered updates say bids=%s asks=%s", what,
						rowsText(f.ob.Bids), rowsText(f.ob.Asks), rowsText(f.m.bids), rowsText(f.m.asks))
				}
				r.eval(hashBook(f.ob))
			}
			check(f, "after the snapshot")
			for _, msg := range f.in {
				f.restart()
				u := f.ups[msg.item]
				r.bookState(f.ob, u, 0)
				before := bookTextIf(r, f.ob)
				if err := r.applyUpdate(&f.ob, u); err != nil {
					r.fail("update-refused", "update %s was refused: %v", updateText(u), err)
				}
				f.m.apply(u)
				check(f, "after update "+updateText(u)+" on "+before)
				if twin != nil && !r.src.Chance(1, 10) {
					before := bookTextIf(r, twin.ob)
					r.mustApply(&twin.ob, u)
					twin.m.apply(u)
					check(twin, "after update "+updateText(u)+" on a second book "+before)
					check(f, "after an update of a second book")
				}
			}
		}),
		rule:     "as C02, with an independent reference book fed with the same delivered updates, now and then with a second book of its own depth on the same feed, in one run of eight as two such tasks preempted at single statements; non-trivial: at least one fault struck; distinct: signature over faults and all visible books",
		quick:    1200000,
		thorough: 16000000,
	}

	scenarios["C04"] = &scenario{
		run:      twins(runHeal),
		rule:     "a faulty feed phase, then the feed heals by retransmission of every level and removed price in arbitrary order, or by snapshot, in one run of eight as two such tasks preempted at single statements; non-trivial: at least one fault struck before; distinct: signature over faults and books",
		quick:    900000,
		thorough: 12000000,
	}

	scenarios["C12"] = &scenario{
		run:      twins(runDepth),
		rule:     "as C02, with depth queries at, between and outside the levels after every update, in one run of eight as two such tasks preempted at single statements; non-trivial: at least one fault struck; distinct: signature over faults, books and answers",
		quick:    750000,
		thorough: 10000000,
	}
}

func bookTextIf(r *Run, ob market.OrderBook) string {
	if r.tracing {
		return bookText(ob)
	}
	return ""
}

func runHeal(r *Run) {
	s := r.src
	lf := r.swarmLink()
	if lf.loss+lf.dup+lf.late+lf.partition == 0 {
		lf.loss = 100
	}
	bySnapshot := s.Chance(1, 4)
	depth := 1000 // more than all prices that exist
	if bySnapshot {
		depth = r.depth(12)
	}
	f := newFeed(r, depth, 40, lf)
	for _, msg := range f.in {
		u := f.ups[msg.item]
		r.bookState(f.ob, u, 1)
		r.mustApply(&f.ob, u)
		if s.Chance(1, 3) {
			r.repeatHarmless(&f.ob, u)
		}
	}
	va, vb := f.v.snapshot()
	want := newModel(va, vb, f.depth)
	if bySnapshot {
		r.fault("resnapshot")
		f.ob = r.newBook(va, vb, f.depth)
	} else {
		// the venue keeps moving or stands still; it resends everything once
		var all []market.OrderBookUpdate
		ticks := make([]int, 0, len(f.v.touched))
		for k := range f.v.touched {
			ticks = append(ticks, k)
		}
		sort.Ints(ticks)
		for _, k := range ticks {
			all = append(all, market.OrderBookUpdate{Price: f.v.price(k), Volume: f.v.asks[k], Side: "ask"})
			all = append(all, market.OrderBookUpdate{Price: f.v.price(k), Volume: f.v.bids[k], Side: "bid"})
		}
		for _, u := range f.ups { // foreign prices count as removed
			if !contains(all, u) {
				k := u
				k.Volume = 0
				all = append(all, k)
			}
		}
		order := s.N(3)
		if order > 0 {
			for i := len(all) - 1; i > 0; i-- {
				j := i - s.N(i+1)
				all[i], all[j] = all[j], all[i]
			}
		}
		r.logf("the venue resends its full state: %d messages", len(all))
		for _, u := range all {
			r.mustApply(&f.ob, u)
		}
	}
	if !sameLevels(f.ob.Asks, want.asks) || !sameLevels(f.ob.Bids, want.bids) {
		r.fail("not-healed", "after recovery the book shows bids=%s asks=%s, the venue has bids=%s asks=%s",
			rowsText(f.ob.Bids), rowsText(f.ob.Asks), rowsText(want.bids), rowsText(want.asks))
	}
	r.eval(hashBook(f.ob))
	// and it follows the venue from here on as long as nothing is lost
	if !bySnapshot {
		for i, n := 0, s.N(10); i < n; i++ {
			for _, u := range f.v.step() {
				r.mustApply(&f.ob, u)
			}
		}
		va, vb = f.v.snapshot()
		want = newModel(va, vb, f.depth)
		if !sameLevels(f.ob.Asks, want.asks) || !sameLevels(f.ob.Bids, want.bids) {
			r.fail("lost-again", "without faults the recovered book shows bids=%s asks=%s, the venue has bids=%s asks=%s",
				rowsText(f.ob.Bids), rowsText(f.ob.Asks), rowsText(want.bids), rowsText(want.asks))
		}
		r.eval(hashBook(f.ob))
	}
}

func contains(all []market.OrderBookUpdate, u market.OrderBookUpdate) bool {
	for _, x := range all {
		if x.Price == u.Price && x.Side == u.Side {
			return true
		}
	}
	return false
}

func (r *Run) mustApply(ob *market.OrderBook, u market.OrderBookUpdate) {
	if err := r.applyUpdate(ob, u); err != nil {
		r.fail("update-refused", "update %s was refused: %v", updateText(u), err)
	}
}

// repeatHarmless delivers the update that was just delivered once more.
func (r *Run) repeatHarmless(ob *market.OrderBook, u market.OrderBookUpdate) {
	r.fault("duplicate")
	before := cloneBook(*ob)
	r.mustApply(ob, u)
	if !sameLevels(before.Asks, ob.Asks) || !sameLevels(before.Bids, ob.Bids) {
		r.fail("repeat-changes", "the repetition of update %s changed %s to %s", updateText(u), bookText(before), bookText(*ob))
	}
	r.eval(hashBook(*ob))
}

func runDepth(r *Run) {
	s := r.src
	f := newFeed(r, r.depth(12), 40, r.swarmLink())
	r.checkAccum(f, "after the snapshot")
	r.queryDepth(f, 1+s.N(4))
	for _, msg := range f.in {
		f.restart()
		u := f.ups[msg.item]
		r.bookState(f.ob, u, 2)
		r.mustApply(&f.ob, u)
		r.checkAccum(f, "after update "+updateText(u))
		if s.Chance(1, 2) {
			r.queryDepth(f, 1+s.N(4))
		}
	}
}

func (r *Run) checkAccum(f *feed, when string) {
	ob := f.ob
	for i, rows := range [][]market.OrderBookRow{ob.Asks, ob.Bids} {
		sum := 0.0
		for _, x := range rows {
			sum += x.Volume
			if !near(x.AccumVolume, sum, f.v.most) {
				r.fail("accumulated", "%s the %s level %v accumulates %v, the levels up to it hold %v; %s", when, []string{"ask", "bid"}[i], x.Price, x.AccumVolume, sum, bookText(ob))
			}
		}
	}
	r.acc.Evals++
}

func (r *Run) queryDepth(f *feed, n int) {
	s := r.src
	ob := &f.ob
	for i := 0; i < n; i++ {
		var p float64
		kind := s.N(8)
		pick := func(rows []market.OrderBookRow, frac float64) float64 {
			if len(rows) == 0 {
				return f.v.price(s.Range(f.v.lo, f.v.hi))
			}
			j := s.N(len(rows))
			if frac == 0 || j+1 >= len(rows) {
				return rows[j].Price
			}
			return rows[j].Price + (rows[j+1].Price-rows[j].Price)*frac
		}
		switch kind {
		case 0:
			p = pick(ob.Asks, 0)
		case 1:
			p = pick(ob.Bids, 0)
		case 2:
			p = pick(ob.Asks, 0.5)
		case 3:
			p = pick(ob.Bids, 0.5)
		case 4:
			p = f.v.price(s.Range(f.v.lo, f.v.hi))
		case 5:
			p = f.v.price(f.v.hi + 1 + s.N(3))
		case 6:
			p = f.v.price(f.v.lo) / 2
		case 7:
			p = -float64(s.N(3))
		}
		want, in := depthAt(*ob, p)
		var got float64
		var err error
		before := cloneBook(*ob)
		r.lib("GetDepth", func() { got, err = ob.GetDepth(p) })
		if r.tracing {
			r.logf("depth at %v of %s -> %v, %s", p, bookText(*ob), got, errText(err))
		}
		if in && err != nil {
			r.fail("depth-error", "depth at %v, inside the book %s, is an error: %v", p, bookText(*ob), err)
		}
		if !in && err == nil {
			r.fail("depth-outside", "depth at %v, outside the book %s, is %v instead of an error", p, bookText(*ob), got)
		}
		if in && !near(got, want, f.v.most) {
			r.fail("depth-value", "depth at %v is %v, the levels up to it hold %v; %s", p, got, want, bookText(*ob))
		}
		if !sameBook(before, *ob) {
			r.fail("depth-mutates", "a depth query changed the book")
		}
		r.state(3, kind, len(ob.Asks), len(ob.Bids), b2i(in))
		r.eval(hashFloat(0, got))
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// depthAt sums the volume from the best level to a price.
func depthAt(ob market.OrderBook, p float64) (sum float64, in bool) {
	if p <= 0 {
		return 0, false
	}
	if n := len(ob.Asks); n > 0 && ob.Asks[0].Price <= p && p <= ob.Asks[n-1].Price {
		for _, x := range ob.Asks {
			if x.Price <= p {
				sum += x.Volume
			}
		}
		return sum, true
	}
	if n := len(ob.Bids); n > 0 && ob.Bids[n-1].Price <= p && p <= ob.Bids[0].Price {
		for _, x := range ob.Bids {
			if x.Price >= p {
				sum += x.Volume
			}
		}
		return sum, true
	}
	return 0, false
}
