package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/vanclief/finmod/market"
)

func init() {
	scenarios["C05"] = &scenario{
		run:      twins(runLedger),
		rule:     "an execution feed with loss, duplication and delay delivers partial fills to a position that is stored and restored in between, in one run of eight as two such tasks preempted at single statements; non-trivial: at least one fault or restart; distinct: signature over faults and ledgers",
		quick:    1200000,
		thorough: 10000000,
		assume:   []string{"quantities and prices of fills are positive and finite", "money is compared up to 1e-9 of the turnover"},
	}
	scenarios["C06"] = &scenario{
		run:      twins(runRefusal),
		rule:     "an execution feed delivers good, late, foreign, oversized, repeated and malformed fills, in one run of eight as two such tasks preempted at single statements; non-trivial: at least one fault; distinct: signature over faults and verdicts",
		quick:    750000,
		thorough: 10000000,
		assume:   []string{"an excess between 0.9e-4 and 1.1e-4 and a remainder below 1e-8 of the quantity are left to the implementation"},
	}
	scenarios["C15"] = &scenario{
		run:      runCopies,
		rule:     "2 to 4 tasks apply trades to their own copies of one position or fill them again from shared stored ones, preempted at single statements; non-trivial: at least one preemption or fault; distinct: signature over schedule and ledgers",
		quick:    600000,
		thorough: 7000000,
	}
}

func pairOf(base, quote string) market.Pair {
	return market.Pair{Base: market.Asset{Symbol: base, Name: "n" + base}, Quote: market.Asset{Symbol: quote, Name: "n" + quote}}
}

func clonePosition(p *market.Position) market.Position {
	q := *p
	if p.Trades != nil {
		q.Trades = append(make([]string, 0, len(p.Trades)), p.Trades...)
	}
	return q
}

func samePosition(a, b *market.Position) bool {
	return diffValue(reflect.ValueOf(*a), reflect.ValueOf(*b)) == ""
}

func positionText(p *market.Position) string {
	return fmt.Sprintf("{%s open=%v qty=%v open@%v close@%v profit=%v trades=%v}", p.Type, p.Open, p.Quantity, p.OpenPrice, p.ClosePrice, p.Profit, p.Trades)
}

func tradeText(t *market.Trade) string {
	return fmt.Sprintf("%s %s %v@%v %s", t.ID, t.Action, t.Quantity, t.Price, t.Pair.Base.Symbol)
}

// fills makes the trades of an execution.
type fills struct {
	r    *Run
	pair market.Pair
	unit float64
	tick float64
	mid  int
	seq  int
	now  int64
}

func newFills(r *Run) *fills {
	s := r.src
	units := []float64{1, 0.1, 0.01, 0.3, 1e-3, 1000, 1e-6, 1.0 / 3, 1e6, 1e9}
	ticks := []float64{1, 0.01, 0.5, 100, 1e-6, 1e6, 1e-9, 1e-12}
	mids := []int{50000, 50000, 2000, 50}
	return &fills{r: r, pair: pairOf("BTC", "USD"), unit: units[s.N(len(units))], tick: ticks[s.N(len(ticks))], mid: 1 + s.N(mids[s.N(len(mids))]), now: r.clock / 1e9}
}

func (f *fills) price() float64 {
	s := f.r.src
	if s.Chance(1, 20) {
		return float64(1+s.N(1<<20)) * f.tick
	}
	k := f.mid + s.Range(0, 200) - 100
	if k < 1 {
		k = 1
	}
	return float64(k) * f.tick
}

func (f *fills) trade(action market.ActionType, qty float64) *market.Trade {
	s := f.r.src
	f.seq++
	f.now += int64(s.N(100))
	price := f.price()
	types := []market.OrderType{market.MarketOrder, market.LimitOrder, market.ClosePosition, market.TakeProfit, market.StopLoss}
	var fee float64
	if s.Chance(1, 3) { // or a rebate
		fee = price * qty * float64(s.Range(0, 60)-10) / 1000
	}
	cost := price*qty + fee
	if action == market.SellAction {
		cost = price*qty - fee
	}
	id := fmt.Sprintf("%c%d", "taTz"[s.N(4)], f.seq)
	if s.Chance(1, 16) {
		id += "-4f0c2b7e-9d1a-4c55-8e63-" + strings.Repeat("0", s.N(30))
	}
	return &market.Trade{
		ID: id, ExecutionTime: time.Unix(f.now, int64(s.N(1000))*1000).UTC(), Action: action,
		OrderType: types[s.N(len(types))], Pair: f.pair, Price: price, Quantity: qty, Fee: fee, Cost: cost, ExecutionID: "e",
	}
}

func opposite(a market.ActionType) market.ActionType {
	if a == market.BuyAction {
		return market.SellAction
	}
	return market.BuyAction
}

func (r *Run) newPosition(t *market.Trade) (p *market.Position) {
	r.lib("NewPosition", func() { p = market.NewPosition(t) })
	r.logf("opened by %s", tradeText(t))
	return p
}

func (r *Run) modify(p *market.Position, t *market.Trade) (err error) {
	r.lib("Modify", func() { err = p.Modify(t) })
	if r.tracing {
		r.logf("fill %s -> %s, %s", tradeText(t), positionText(p), errText(err))
	}
	return err
}

// restore puts the position through its stored form.
func (r *Run) restore(p *market.Position) *market.Position {
	b, err := json.Marshal(p)
	if err != nil {
		r.fail("store", "position cannot be stored: %v", err)
	}
	q := &market.Position{}
	if err := json.Unmarshal(b, q); err != nil {
		r.fail("store", "position cannot be restored: %v", err)
	}
	out := &market.Position{}
	r.lib("Position.Update", func() { err = out.Update(q) })
	if err != nil {
		r.fail("store", "restored position is refused: %v", err)
	}
	r.fault("restart")
	return out
}

// many is n, now and then a life of hundreds of fills.
func (r *Run) many(n int) int {
	if r.src.Chance(1, 256) {
		n += 40 + r.src.N(300)
	}
	return n
}

// ledger is the money of a position, kept independently.
type ledger struct {
	long     bool
	cash     float64
	qty      float64
	turnover float64
	moved    float64 // quantity ever moved
}

func (l *ledger) add(t *market.Trade) {
	v := t.Price * t.Quantity
	l.turnover += v
	l.moved += t.Quantity
	if t.Action == market.BuyAction {
		l.cash -= v
	} else {
		l.cash += v
	}
	if (t.Action == market.BuyAction) == l.long {
		l.qty += t.Quantity
	} else {
		l.qty -= t.Quantity
	}
}

func (l *ledger) worth(price, qty float64) float64 {
	if l.long {
		return l.cash + price*qty
	}
	return l.cash - price*qty
}

func runLedger(r *Run) {
	s := r.src
	f := newFills(r)
	side := []market.ActionType{market.BuyAction, market.SellAction}[s.N(2)]
	lf := r.swarmLink()
	restarts := s.Rate()
	first := f.trade(side, float64(1+s.N(50))*f.unit)
	p := r.newPosition(first)
	l := &ledger{long: side == market.BuyAction}
	l.add(first)
	check := func() {
		if math.Abs(p.Quantity-l.qty) > 1e-9*l.moved {
			r.fail("quantity", "the position holds %v, its fills add up to %v; %s", p.Quantity, l.qty, positionText(p))
		}
		for i := 0; i < 2; i++ {
			price := f.price()
			if i == 0 && s.Chance(1, 3) {
				price = p.OpenPrice
			}
			if i == 1 && s.Chance(1, 12) { // worthless, or one is paid to take it
				price *= -float64(s.N(2))
			}
			var got float64
			r.lib("UnrealizedProfit", func() { got = p.UnrealizedProfit(price) })
			want := l.worth(price, l.qty)
			tol := 1e-9 * (l.turnover + math.Abs(price)*l.moved)
			if !(math.Abs(got-want) <= tol) {
				r.fail("unrealized", "at price %v the unrealized profit is %v, the cash flows give %v; %s", price, got, want, positionText(p))
			}
		}
		r.eval(hashFloat(hashFloat(1, p.Quantity), p.OpenPrice))
	}
	check()

	n := r.many(s.N(24))
	var out []*market.Trade
	open := first.Quantity
	for i := 0; i < n; i++ {
		q := float64(1+s.N(30)) * f.unit
		action := side
		if s.Chance(1, 2) {
			action = opposite(side)
			kind := 2
			if n <= 40 || i+10 > n { // otherwise it is to live long
				kind = s.N(6)
			}
			switch kind {
			case 0: // exactly what is open
				q = open
			case 1: // a hair less or more
				q = open * (1 + []float64{1e-16, -1e-16, 3e-5, -1e-3, 1e-12}[s.N(5)])
			case 2:
				q = open * float64(1+s.N(99)) / 100
			}
			if q <= 0 {
				q = f.unit
			}
			open -= q
			if open <= 0 {
				open = f.unit
			}
		} else {
			open += q
		}
		out = append(out, f.trade(action, q))
	}
	applied := map[string]bool{first.ID: true}
	for _, m := range r.transmit(len(out), 1e9, lf) {
		t := out[m.item]
		if applied[t.ID] { // the node knows which fills it has applied
			continue
		}
		if restarts > 0 && s.Chance(restarts, 1000) {
			p = r.restore(p)
			check()
		}
		before := clonePosition(p)
		err := r.modify(p, t)
		if err != nil {
			if !samePosition(&before, p) {
				r.fail("refused-changed", "a refused fill changed the position from %s to %s", positionText(&before), positionText(p))
			}
			continue
		}
		applied[t.ID] = true
		r.state(6, b2i(l.long), b2i(t.Action == side), b2i(p.Open), len(p.Trades), bucket(t.Quantity/before.Quantity))
		if p.Open {
			l.add(t)
			check()
			continue
		}
		want := l.worth(t.Price, l.qty)
		if !(math.Abs(p.Profit-want) <= 1e-9*(l.turnover+t.Price*l.moved)) {
			r.fail("profit", "closed with a profit of %v, the cash flows give %v; before %s, fill %s", p.Profit, want, positionText(&before), tradeText(t))
		}
		if (t.Action == market.BuyAction) == l.long {
			r.fail("closed-by-add", "an adding fill closed the position")
		}
		r.eval(hashFloat(2, p.Profit))
		if restarts > 0 {
			q := r.restore(p)
			if !near(q.Profit, p.Profit, 0) || q.Open {
				r.fail("profit-restored", "the profit %v is %v after a restart", p.Profit, q.Profit)
			}
		}
		break
	}
}

func bucket(x float64) int {
	switch {
	case x < 0.01:
		return 0
	case x < 0.5:
		return 1
	case x < 0.999999:
		return 2
	case x <= 1.000001:
		return 3
	case x < 2:
		return 4
	}
	return 5
}

func runRefusal(r *Run) {
	s := r.src
	f := newFills(r)
	side := []market.ActionType{market.BuyAction, market.SellAction}[s.N(2)]
	first := f.trade(side, float64(1+s.N(50))*f.unit)
	p := r.newPosition(first)
	wantType := market.LongPosition
	if side == market.SellAction {
		wantType = market.ShortPosition
	}
	if !p.Open || p.Type != wantType || !same(p.Pair, first.Pair) || p.Quantity != first.Quantity || p.OpenPrice != first.Price ||
		!p.OpenTime.Equal(first.ExecutionTime) || !p.CloseTime.IsZero() || len(p.Trades) != 1 || p.Trades[0] != first.ID || p.ID == "" {
		r.fail("opened-wrong", "a position opened by %s is %s", tradeText(first), positionText(p))
	}
	p.TakeProfit = market.PositionCloseOrder{Price: 5, OrderID: "tp"}
	p.StopLoss = market.PositionCloseOrder{Price: 3, OrderID: "sl"}
	p.ExecutionID, p.Data = "exec", "data"
	rates := [7]int{}
	for i := range rates {
		rates[i] = s.Rate() / 2
	}
	badActions := []market.ActionType{"", "BUY", "hold", "Sell"}
	var last *market.Trade
	n := r.many(1 + s.N(20))
	for i := 0; i < n; i++ {
		act := side
		q := float64(1+s.N(30)) * f.unit
		if s.Chance(1, 2) {
			act = opposite(side)
			if n > 40 && i+10 < n { // it is to live long
				q = p.Quantity * float64(1+s.N(40)) / 100
			} else {
				switch s.N(4) {
				case 0:
					q = p.Quantity
				case 1:
					q = p.Quantity * float64(1+s.N(9)) / 10
				}
			}
		}
		t := f.trade(act, q)
		if s.Chance(1, 64) {
			t.ID = "" // the exchange gave it none
		}
		hit := func(k int, kind string) bool {
			if rates[k] > 0 && s.Chance(rates[k], 1000) {
				r.fault(kind)
				return true
			}
			return false
		}
		if hit(0, "foreign-pair") {
			other := [][2]string{{"ETH", "USD"}, {"BTC", "EUR"}, {"USD", "BTC"}, {"BT", "CUSD"}, {"BTC", ""}, {"", "USD"}, {"BTC", "USDT"}, {"XBTC", "USD"}, {"btc", "usd"}, {"", ""}}
			k := other[s.N(len(other))]
			t.Pair = pairOf(k[0], k[1])
		}
		if hit(1, "unknown-action") {
			t.Action = badActions[s.N(len(badActions))]
		}
		if hit(2, "oversized") {
			t.Action = opposite(side)
			extra := []float64{0.5e-4, 0.8e-4, 1.2e-4, 2e-4, 0.01, 1, 100}[s.N(7)]
			t.Quantity = p.Quantity + extra
		}
		if hit(3, "duplicate") && last != nil {
			c := *last
			t = &c
		}
		if hit(4, "dust") { // a quantity as binary sums produce it
			t.Action = opposite(side)
			t.Quantity = p.Quantity * (1 + []float64{-3e-16, -1e-15, 2e-16, -1e-13, -1e-11, 1e-10}[s.N(6)])
		}
		if hit(5, "restart") {
			p = r.restore(p)
		}
		if hit(6, "old-execution") { // executed before the ones already applied
			t.ExecutionTime = t.ExecutionTime.Add(-time.Duration(s.N(1000)) * time.Second)
			if s.Chance(1, 8) {
				t.ExecutionTime = time.Time{}
			}
		}
		r.refusalStep(p, t, side)
		last = t
	}
}

// refusalStep gives one trade to a position and judges the outcome.
func (r *Run) refusalStep(p *market.Position, t *market.Trade, side market.ActionType) {
	before := clonePosition(p)
	arg := *t
	err := r.modify(p, t)
	if !same(*t, arg) {
		r.fail("trade-changed", "the position changed the trade it was given")
	}
	known := t.Action == market.BuyAction || t.Action == market.SellAction
	reducing := known && t.Action != side
	excess := t.Quantity - before.Quantity
	mustRefuse, mustAccept := false, false
	mustClose, mustStay := false, false
	switch {
	case !before.Open, !same(t.Pair, before.Pair), !known:
		mustRefuse = true
	case !reducing:
		mustAccept, mustStay = true, true
	case excess > 1.1e-4:
		mustRefuse = true
	case excess > 0.9e-4:
	case excess >= 0:
		mustAccept, mustClose = true, true
	case -excess <= 1e-15*before.Quantity: // only rounding is left
		mustAccept, mustClose = true, true
	case -excess <= 1e-8*before.Quantity:
		mustAccept = true
	default:
		mustAccept, mustStay = true, true
	}
	ctx := func() string {
		return fmt.Sprintf("before %s, trade %s, after %s, %s", positionText(&before), tradeText(t), positionText(p), errText(err))
	}
	r.state(7, b2i(before.Open), b2i(known), b2i(reducing), b2i(!same(t.Pair, before.Pair)), bucket(t.Quantity/before.Quantity), b2i(err == nil), b2i(p.Open))
	r.eval(uint64(b2i(err == nil))<<1 | uint64(b2i(p.Open)))
	if err != nil {
		if mustAccept {
			r.fail("refused-good", "a good trade was refused: %s", ctx())
		}
		if !samePosition(&before, p) {
			r.fail("refused-changed", "a refused trade changed the position: %s", ctx())
		}
		return
	}
	if mustRefuse {
		r.fail("accepted-bad", "a trade that cannot be applied was not refused: %s", ctx())
	}
	wantTrades := append(append([]string{}, before.Trades...), t.ID)
	if !reflect.DeepEqual(p.Trades, wantTrades) {
		r.fail("trades-list", "the applied trades are %v, not %v: %s", p.Trades, wantTrades, ctx())
	}
	if p.ID != before.ID || p.Type != before.Type || !same(p.Pair, before.Pair) || !p.OpenTime.Equal(before.OpenTime) ||
		!same(p.TakeProfit, before.TakeProfit) || !same(p.StopLoss, before.StopLoss) || p.ExecutionID != before.ExecutionID || p.Data != before.Data {
		r.fail("other-field", "a fill changed a field it has nothing to do with: %s", ctx())
	}
	if mustClose && p.Open {
		r.fail("not-closed", "nothing is left but the position is open: %s", ctx())
	}
	if mustStay && !p.Open {
		r.fail("closed-early", "the position closed with quantity left: %s", ctx())
	}
	if p.Open {
		if p.ClosePrice != before.ClosePrice || !p.CloseTime.Equal(before.CloseTime) || p.Profit != before.Profit {
			r.fail("close-fields", "an open position got closing data: %s", ctx())
		}
		want := before.Quantity + t.Quantity
		if reducing {
			want = before.Quantity - t.Quantity
		}
		if !near(p.Quantity, want, before.Quantity+t.Quantity) {
			r.fail("quantity", "the quantity is %v, not %v: %s", p.Quantity, want, ctx())
		}
	} else if p.ClosePrice != t.Price || !p.CloseTime.Equal(t.ExecutionTime) {
		r.fail("close-fields", "closed at %v/%v instead of %v/%v: %s", p.ClosePrice, p.CloseTime, t.Price, t.ExecutionTime, ctx())
	}
}

// copyStep is a trade, or filling the position from the store.
type copyStep struct {
	trade *market.Trade
	from  *market.Position
}

// fillFrom gives p the value of a stored position.
func (r *Run) fillFrom(p, from *market.Position) {
	var err error
	r.lib("Position.Update", func() { err = p.Update(from) })
	if err != nil {
		r.fail("update", "a position refuses another position: %v", err)
	}
	if r.tracing {
		r.logf("filled from the store -> %s", positionText(p))
	}
}

func runCopies(r *Run) {
	s := r.src
	f := newFills(r)
	side := []market.ActionType{market.BuyAction, market.SellAction}[s.N(2)]
	p := r.newPosition(f.trade(side, float64(10+s.N(50))*f.unit))
	for i, n := 0, s.N(9); i < n; i++ {
		a := side
		if s.Chance(1, 4) {
			a = opposite(side)
		}
		r.modify(p, f.trade(a, float64(1+s.N(3))*f.unit))
	}
	if s.Chance(1, 8) { // kept without the list of its trades
		p.Trades = nil
	}
	if s.Chance(1, 3) {
		p = r.restore(p)
	}
	n := 2 + s.N(3)
	copies := make([]*market.Position, n)
	todo := make([][]copyStep, n)
	want := make([][]market.Position, n)
	at := make([]int, n)
	copies[0] = p
	book := map[string]market.Position{}
	for i := range copies {
		if i > 0 {
			from := copies[s.N(i)]
			switch s.N(3) {
			case 0: // by value, as in a tick
				book["x"] = *from
				c := book["x"]
				copies[i] = &c
			case 1: // through the model's update, as from the cache
				c := &market.Position{}
				r.fillFrom(c, from)
				copies[i] = c
			case 2: // over a position that had a life of its own
				c := r.newPosition(f.trade(opposite(side), f.unit))
				for k := s.N(5); k > 0; k-- {
					r.modify(c, f.trade(opposite(side), f.unit))
				}
				r.fillFrom(c, from)
				copies[i] = c
			}
			if !samePosition(copies[i], from) {
				r.fail("copy-differs", "a copy of %s is %s", positionText(from), positionText(copies[i]))
			}
		}
	}
	// what the store holds: read by everybody, never to change
	stored := make([]*market.Position, 1+s.N(2))
	for i := range stored {
		c := clonePosition(copies[s.N(n)])
		if s.Chance(1, 2) { // another position
			c = clonePosition(r.newPosition(f.trade(side, 50*f.unit)))
		}
		for k := s.N(3); k > 0; k-- {
			r.modify(&c, f.trade(side, f.unit))
		}
		stored[i] = &c
		copies = append(copies, &c)
		want = append(want, []market.Position{clonePosition(&c)})
		at = append(at, 0)
	}
	for i := 0; i < n; i++ {
		alone := clonePosition(copies[i])
		want[i] = append(want[i], clonePosition(&alone))
		for k, m := 0, s.N(7); k < m; k++ {
			if s.Chance(1, 6) { // filled again from the store
				from := stored[s.N(len(stored))]
				alone = clonePosition(from)
				todo[i] = append(todo[i], copyStep{from: from})
			} else {
				a, q := side, float64(1+s.N(5))*f.unit
				if s.Chance(1, 3) {
					a = opposite(side)
				}
				if s.Chance(1, 12) {
					a, q = opposite(side), copies[i].Quantity
				}
				t := f.trade(a, q)
				r.modify(&alone, t)
				todo[i] = append(todo[i], copyStep{trade: t})
			}
			want[i] = append(want[i], clonePosition(&alone))
		}
	}
	check := func(who int) {
		for j := range copies {
			if at[j] < 0 {
				continue
			}
			if !samePosition(copies[j], &want[j][at[j]]) {
				if j == who {
					r.fail("not-alone", "copy %d became %s, alone it becomes %s", j, positionText(copies[j]), positionText(&want[j][at[j]]))
				}
				r.fail("copy-changed", "what happened to copy %d changed copy %d from %s to %s", who, j, positionText(&want[j][at[j]]), positionText(copies[j]))
			}
		}
		r.eval(uint64(who))
	}
	fns := make([]func(), n)
	for i := range fns {
		i := i
		fns[i] = func() {
			for k, t := range todo[i] {
				at[i] = -1
				if t.from != nil {
					r.fillFrom(copies[i], t.from)
				} else {
					r.modify(copies[i], t.trade)
				}
				at[i] = k + 1
				check(i)
				r.state(8, n, i, k, len(copies[i].Trades), b2i(copies[i].Open))
			}
		}
	}
	r.parallel(fns...)
	check(-1)
}
