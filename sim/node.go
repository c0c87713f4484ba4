package main

import (
	"fmt"
	"sort"

	"github.com/vanclief/finmod/market"
	"github.com/vanclief/state/caches/simplecache"
	"github.com/vanclief/state/interfaces"
	"github.com/vanclief/state/manager"
)

func init() {
	scenarios["C01"] = &scenario{
		run:      runNode,
		rule:     "a trading node on a failing disk, a failing database and a faulty feed crashes at system calls, database operations, single statements and between messages, until every event has been delivered once without a fault; non-trivial: at least one fault or crash; distinct: signature over faults, crash points and outcomes",
		quick:    240000,
		thorough: 2800000,
		assume:   []string{"the node replaces its candle file by renaming a completely saved one", "fills of a position are applied in their order; a fill that arrives early is delivered again later", "the disk and the database keep what they acknowledged"},
		real:     []string{"state manager and its in-memory cache (github.com/vanclief/state v0.4.3), encoding/json, os.File, bufio, fmt"},
		stub:     []string{"the system calls of the disk (in-memory disk with injected faults)", "the database (rows as JSON, faults before and after the effect)", "venue, feed, node program, logger of the state manager"},
	}
}

type event struct {
	candle *market.Candle
	fill   *market.Trade
	pos    string // position the fill belongs to
	seq    int    // its number among the fills of the position
}

// node is the program under simulation; a new one is made for every life.
type node struct {
	r     *Run
	db    *simDB
	mg    *manager.Manager
	hist  []market.Candle
	path  string
	world *nodeWorld
}

// nodeWorld is what outlives the process: the truth the checks compare with.
type nodeWorld struct {
	onDisk []market.Candle // content of the file after the last rename
	exists bool
	acked  map[int64]bool      // candle times reported as stored
	fills  map[string][]string // trade IDs reported as applied, per position
	disk   FSFaults
	db     struct{ get, before, after int }
}

func (n *node) boot() bool {
	r := n.r
	var cache interfaces.Cache
	if r.src.Chance(2, 3) {
		cache = simplecache.New()
	}
	mg, err := manager.New(n.db, cache)
	if err != nil {
		r.fail("manager", "%v", err)
	}
	n.mg = mg
	if !n.world.exists {
		return true
	}
	hard := r.fs.hard
	hist, err := r.loadCandles(n.path)
	if err != nil {
		if r.fs.hard == hard {
			r.fail("load-spurious", "the node cannot load its intact candle file: %v", err)
		}
		return false // the supervisor starts it again
	}
	if !sameCandles(hist, n.world.onDisk) {
		r.fail("load-differs", "the node loads something else than it saved: %s", diffCandles(n.world.onDisk, hist))
	}
	have := map[int64]bool{}
	for _, c := range hist {
		have[c.Time] = true
	}
	for t := range n.world.acked {
		if !have[t] {
			r.fail("candle-lost", "candle %d was reported as stored and is gone after the restart", t)
		}
	}
	n.hist = hist
	return true
}

// takeCandle stores a candle; it reports whether it is stored.
func (n *node) takeCandle(c market.Candle) bool {
	i := sort.Search(len(n.hist), func(i int) bool { return n.hist[i].Time >= c.Time })
	if i < len(n.hist) && n.hist[i].Time == c.Time {
		return n.world.acked[c.Time]
	}
	next := make([]market.Candle, 0, len(n.hist)+1)
	next = append(next, n.hist[:i]...)
	next = append(next, c)
	next = append(next, n.hist[i:]...)
	tmp := n.path + ".tmp"
	if n.r.saveCandles(next, tmp) != nil {
		return false
	}
	// the rename is the moment of truth
	w := n.world
	oldDisk, oldExists := w.onDisk, w.exists
	w.onDisk, w.exists = next, true
	if n.r.fs.crashIn == 1 { // dies at the rename, before its effect
		w.onDisk, w.exists = oldDisk, oldExists
	}
	if err := n.r.fs.rename(tmp, n.path); err != nil {
		w.onDisk, w.exists = oldDisk, oldExists
		return false
	}
	n.hist = next
	for _, x := range next {
		w.acked[x.Time] = true
	}
	return true
}

// getPosition reads a position; ok is false when the store failed.
func (n *node) getPosition(id string) (p *market.Position, found, ok bool) {
	p = &market.Position{}
	hard := n.db.hard
	var err error
	n.r.lib("Manager.Get", func() { err = n.mg.Get(p, id) })
	if err == nil {
		return p, true, true
	}
	return nil, false, n.db.hard == hard
}

func (n *node) takeFill(e event) bool {
	r := n.r
	p, found, ok := n.getPosition(e.pos)
	if !ok {
		return false
	}
	acked := n.world.fills[e.pos]
	if found {
		if len(p.Trades) < len(acked) {
			r.fail("fill-lost", "%d fills of %s were reported as applied, the store knows %v", len(acked), e.pos, p.Trades)
		}
		for i, id := range acked {
			if p.Trades[i] != id {
				r.fail("fill-lost", "fill %d of %s is %s in the store, %s was reported", i, e.pos, p.Trades[i], id)
			}
		}
	} else if len(acked) > 0 {
		r.fail("fill-lost", "position %s with %d reported fills is gone", e.pos, len(acked))
	}
	if found && e.seq < len(p.Trades) {
		if p.Trades[e.seq] != e.fill.ID {
			r.fail("fill-order", "fill %d of %s is %s, not %s", e.seq, e.pos, p.Trades[e.seq], e.fill.ID)
		}
		if e.seq >= len(acked) { // applied before a crash or a lost answer; confirm it
			n.world.fills[e.pos] = append([]string{}, p.Trades[:e.seq+1]...)
		}
		return true
	}
	op := manager.UPDATE
	if !found {
		if e.seq != 0 {
			return false // came early
		}
		op = manager.INSERT
		p = r.newPosition(e.fill)
		p.ID = e.pos
	} else {
		if e.seq > len(p.Trades) {
			return false
		}
		if err := r.modify(p, e.fill); err != nil {
			r.fail("fill-refused", "fill %s does not apply to %s: %v", tradeText(e.fill), positionText(p), err)
		}
	}
	var err error
	r.lib("Manager.Stage", func() { err = n.mg.Stage(p, op) })
	if err != nil {
		r.fail("stage", "%v", err)
	}
	r.lib("Manager.Commit", func() { err = n.mg.Commit() })
	if err != nil {
		n.mg.Clear()
		return false
	}
	n.world.fills[e.pos] = append([]string{}, p.Trades...)
	return true
}

func (n *node) take(e event) bool {
	if e.candle != nil {
		return n.takeCandle(*e.candle)
	}
	return n.takeFill(e)
}

func runNode(r *Run) {
	s := r.src
	f := newFills(r)
	// the truth: candles and fills
	nc := 1 + s.N([]int{8, 25, 40}[s.N(3)])
	candles := r.walk(nc, 1619827200+60*int64(s.N(120)), 60)
	var events []event
	type plan struct {
		side market.ActionType
		open float64
		seq  int
		done bool
	}
	npos := 1 + s.N(3)
	plans := make([]plan, npos)
	nf, ends := s.N(12), 5
	if s.Chance(1, 16) { // positions of many fills
		nf, ends = s.N(60), 40
	}
	ci := 0
	for i := 0; i < nc+nf; i++ {
		left := nc + nf - i
		if ci < nc && s.N(left) < nc-ci {
			c := candles[ci]
			ci++
			events = append(events, event{candle: &c})
			continue
		}
		k := s.N(npos)
		pl := &plans[k]
		if pl.done {
			continue
		}
		var t *market.Trade
		switch {
		case pl.seq == 0:
			pl.side = []market.ActionType{market.BuyAction, market.SellAction}[s.N(2)]
			t = f.trade(pl.side, float64(1+s.N(20))*f.unit)
			pl.open = t.Quantity
		case s.Chance(1, ends):
			t = f.trade(opposite(pl.side), pl.open)
			pl.done = true
		case s.Chance(1, 3):
			t = f.trade(opposite(pl.side), pl.open/float64(2+s.N(4)))
			pl.open -= t.Quantity
		default:
			t = f.trade(pl.side, float64(1+s.N(20))*f.unit)
			pl.open += t.Quantity
		}
		events = append(events, event{fill: t, pos: fmt.Sprintf("pos-%d", k), seq: pl.seq})
		pl.seq++
	}
	for ; ci < nc; ci++ {
		c := candles[ci]
		events = append(events, event{candle: &c})
	}

	// the node that is never interrupted
	ref := map[string]*market.Position{}
	for _, e := range events {
		if e.fill == nil {
			continue
		}
		if p := ref[e.pos]; p == nil {
			p = r.newPosition(e.fill)
			p.ID = e.pos
			ref[e.pos] = p
		} else if err := r.modify(p, e.fill); err != nil {
			r.fail("fill-refused", "fill %s does not apply to %s: %v", tradeText(e.fill), positionText(p), err)
		}
	}

	db := newDB(r)
	w := &nodeWorld{acked: map[int64]bool{}, fills: map[string][]string{}}
	r.fs.swarmDisk()
	r.fs.f.capacity = 0
	w.disk = r.fs.f
	w.db.get, w.db.before, w.db.after = s.Rate(), s.Rate(), s.Rate()
	crashes := s.Rate()
	lf := r.swarmLink()
	path := diskRoot + "candles"
	live := func(evs []event, faulty bool) {
		i := 0
		for tries := 0; i < len(evs) && tries < 40; tries++ {
			r.process(func() {
				n := &node{r: r, db: db, path: path, world: w}
				db.fail.get, db.fail.before, db.fail.after, db.dieA = 0, 0, 0, 0
				r.fs.heal()
				if faulty && tries < 30 {
					r.fs.f = w.disk
					db.fail.get, db.fail.before, db.fail.after = w.db.get, w.db.before, w.db.after
					if crashes > 0 && s.Chance(crashes, 500) {
						switch s.N(3) {
						case 0:
							r.fs.crashIn = 1 + s.N(60)
						case 1:
							r.crashIn = 1 + s.N(1<<uint(4+s.N(9)))
						case 2:
							db.dieA = 1 + s.N(6)
						}
					}
				}
				if !n.boot() {
					return
				}
				for i < len(evs) {
					done := n.take(evs[i])
					r.state(20, bucketLen(len(n.hist)), b2i(evs[i].candle != nil), b2i(done), tries, b2i(faulty))
					r.eval(uint64(b2i(done)))
					i++ // a message that failed comes again in a later round
				}
			})
		}
	}
	for round, rounds := 0, 1+s.N(2); round < rounds; round++ {
		var evs []event
		for _, m := range r.transmit(len(events), 1e9, lf) {
			evs = append(evs, events[m.item])
		}
		live(evs, true)
	}
	r.fs.heal()
	live(events, false) // at least once, at last

	// a fresh node reads everything and publishes its figures
	r.process(func() {
		db.fail.get, db.fail.before, db.fail.after, db.dieA = 0, 0, 0, 0
		n := &node{r: r, db: db, path: path, world: w}
		if !n.boot() {
			r.fail("load-spurious", "the node cannot boot on healthy storage")
		}
		if !sameCandles(n.hist, candles) {
			r.fail("history-differs", "the node ends with another history: %s", diffCandles(candles, n.hist))
		}
		periods, intervals := []int{1 + s.N(4), 14}, []int{1 + s.N(5), 15}
		got := r.publishFigures(n.hist, periods, intervals)
		want := r.publishFigures(candles, periods, intervals)
		ctx := func() string { return "against the uninterrupted node" }
		r.checkStable(want, got, periods, intervals, maxClose(candles), ctx)
		r.checkStable(got, want, periods, intervals, maxClose(candles), ctx)
		for _, m := range intervals {
			if !sameCandles(got.resampled[m], want.resampled[m]) {
				r.fail("resampled-differs", "the resampled candles differ: %s", diffCandles(want.resampled[m], got.resampled[m]))
			}
		}
		for k := 0; k < npos; k++ {
			id := fmt.Sprintf("pos-%d", k)
			wp := ref[id]
			p, found, ok := n.getPosition(id)
			if !ok {
				r.fail("store", "healthy database failed")
			}
			if found != (wp != nil) {
				r.fail("position-differs", "position %s stored: %v, expected: %v", id, found, wp != nil)
			}
			if wp != nil && !samePosition(p, wp) {
				r.fail("position-differs", "position %s ends as %s, without interruption as %s", id, positionText(p), positionText(wp))
			}
		}
		r.eval(got.hash())
	})
}
