package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
)

func init() {
	scenarios["C25"] = &scenario{
		run:      runLive,
		rule:     "a candle history of one or two markets grows by single candles and batches through a feed with loss, repetition and gaps, is revised in place, saved, crashes and is loaded in between, and after every growth each indicator is compared with an independent computation of its definition; non-trivial: at least one fault, restart or crash; distinct: signature over faults and published values",
		quick:    360000,
		thorough: 4000000,
		assume:   []string{"numbers are compared up to rounding", "RSI over a window without any movement is left to the implementation"},
		stub:     []string{"the system calls of the disk (in-memory disk with injected faults)"},
	}
	scenarios["C26"] = &scenario{
		run:      runSession,
		rule:     "a strategy sizes orders, a venue executes them in parts with fees, the execution feed loses (and resends), repeats, delays and reorders the parts, the node books them as trades and positions and restarts in between, one session or two interleaved; non-trivial: at least one fault or restart; distinct: signature over faults and balances",
		quick:    360000,
		thorough: 4000000,
		assume:   []string{"prices and quantities of executions are positive and finite", "an execution that exceeds the open quantity is booked in two parts, one that closes and one that opens", "money is compared up to 1e-8 of the turnover and of what has moved"},
		stub:     []string{"venue, execution feed, node program"},
	}
}

// live is the history of one market as the node holds it.
type live struct {
	path   string
	feed   []market.Candle
	at     int
	hist   []market.Candle
	sorted bool // the node sorts what arrives, or takes it as it comes
}

// settings are the parameters a node asks its indicators with.
type settings struct {
	period, rsi int
	beta        float64
}

// runLive compares every published indicator with its definition.
func runLive(r *Run) {
	s := r.src
	n := s.N([]int{12, 40, 90}[s.N(3)])
	if s.Chance(1, 256) {
		n = s.N(500)
	}
	start := 1619827200 + 60*int64(s.N(240))
	markets := make([]*live, 1+b2i(s.Chance(1, 4)))
	for i := range markets {
		m := &live{path: fmt.Sprintf("%shistory%d", diskRoot, i)}
		all := r.walk(n, start, 60)
		for _, d := range r.transmit(n, 1e9, r.swarmLink()) {
			m.feed = append(m.feed, all[d.item])
		}
		m.sorted = s.Chance(1, 2)
		markets[i] = m
	}
	var fixed *settings // a node that always asks alike
	if s.Chance(1, 3) {
		fixed = r.settings(len(markets[0].feed))
	}
	revises := 0
	if s.Chance(1, 3) {
		revises = s.Rate()
	}
	restarts := s.Rate()
	r.fs.swarmDisk()
	disk := r.fs.f
	r.fs.heal()
	for _, m := range markets {
		r.checkDefinitions(m.hist, fixed)
	}
	for {
		var busy []*live
		for _, m := range markets {
			if m.at < len(m.feed) {
				busy = append(busy, m)
			}
		}
		if len(busy) == 0 {
			break
		}
		m := busy[s.N(len(busy))]
		k := 1
		if s.Chance(1, 2) {
			k = 1 + s.N(20)
		}
		for ; k > 0 && m.at < len(m.feed); k-- {
			m.hist = append(m.hist, m.feed[m.at])
			m.at++
		}
		if m.sorted {
			sort.SliceStable(m.hist, func(i, j int) bool { return m.hist[i].Time < m.hist[j].Time })
		}
		if restarts > 0 && s.Chance(restarts, 1000) {
			m.hist = r.restartHistory(m.path, m.hist, disk)
		}
		r.checkDefinitions(m.hist, fixed)
		for revises > 0 && s.Chance(revises, 1000) {
			r.revise(m.hist)
			r.checkDefinitions(m.hist, fixed)
		}
	}
}

// revise corrects candles in place, most often the newest one, which still trades.
func (r *Run) revise(cs []market.Candle) {
	s := r.src
	if len(cs) == 0 {
		return
	}
	r.fault("revised")
	c := &cs[len(cs)-1]
	if s.Chance(1, 2) {
		c = &cs[s.N(len(cs))]
	}
	x := r.walk(1, c.Time, 60)[0]
	if s.Chance(1, 2) { // within the range it had
		c.Close = c.Low + (c.High-c.Low)*float64(s.N(5))/4
		c.Volume = x.Volume
		return
	}
	if s.Chance(1, 2) { // the range widens, the close stays
		c.High += math.Abs(x.High - x.Low)
		c.Low -= math.Abs(x.Open - x.Close)
		return
	}
	*c = x
}

func (r *Run) settings(n int) *settings {
	s := r.src
	p := &settings{period: s.N(24) - 1}
	if n > 90 {
		p.period = s.N(260)
	}
	if s.Chance(1, 3) && n > 0 { // around the length of the history
		p.period = n + s.N(3) - 1
	}
	if s.Chance(1, 4) {
		p.period = 14
	}
	p.rsi = 1 + s.N(20)
	if n > 90 && s.Chance(1, 2) {
		p.rsi = 1 + s.N(n)
	}
	if s.Chance(1, 2) {
		p.rsi = 14
	}
	if s.Chance(1, 24) { // no window at all
		p.period, p.rsi = -s.N(6), -s.N(6)
	}
	p.beta = float64(s.N(101)) / 100
	return p
}

func (r *Run) checkDefinitions(cs []market.Candle, fixed *settings) {
	ask := fixed
	if ask == nil {
		ask = r.settings(len(cs))
	}
	period := ask.period
	scale := maxClose(cs)
	ctx := func() string { return fmt.Sprintf("period %d over closes %s", period, closesText(cs)) }
	fillable := period >= 1 && period <= len(cs)
	series := func(name string, f func() ([]float64, error)) []float64 {
		var got []float64
		var err error
		r.lib(name, func() { got, err = f() })
		if r.tracing {
			r.logf("%s over %d candles, period %d -> %d values, %s", name, len(cs), period, len(got), errText(err))
		}
		if fillable && err != nil {
			r.fail("spurious-error", "%s is an error: %v; %s", name, err, ctx())
		}
		if !fillable && err == nil {
			r.fail("missing-error", "%s gives %v where no window fits; %s", name, got, ctx())
		}
		if err != nil {
			return nil
		}
		return got
	}
	mean := func(from, to int) float64 {
		t := 0.0
		for _, c := range cs[from:to] {
			t += c.Close
		}
		return t / float64(to-from)
	}
	same := func(name string, i int, got, want float64) {
		if !near(got, want, scale) {
			r.fail("value-"+name, "value %d of %s is %v, its definition gives %v; %s", i, name, got, want, ctx())
		}
	}
	ma := series("MovingAverage", func() ([]float64, error) { return indicators.MovingAverage(cs, period) })
	if fillable {
		if len(ma) != len(cs)-period+1 {
			r.fail("length-MovingAverage", "%d values for %d windows; %s", len(ma), len(cs)-period+1, ctx())
		}
		for i, v := range ma {
			same("MovingAverage", i, v, mean(i, i+period))
		}
	}
	smma := series("SmoothedMovingAverage", func() ([]float64, error) { return indicators.SmoothedMovingAverage(cs, period) })
	if fillable {
		if len(smma) != len(cs)-period+1 {
			r.fail("length-SmoothedMovingAverage", "%d values for %d windows; %s", len(smma), len(cs)-period+1, ctx())
		}
		want := mean(0, period)
		for i, v := range smma {
			if i > 0 {
				want += (cs[period-1+i].Close - want) / float64(period)
			}
			same("SmoothedMovingAverage", i, v, want)
		}
	}
	ema := series("ExponentialMovingAverage", func() ([]float64, error) { return indicators.ExponentialMovingAverage(cs, period) })
	if fillable && len(ema) > 0 {
		if len(ema) > len(cs)-period+1 {
			r.fail("length-ExponentialMovingAverage", "%d values for %d candles; %s", len(ema), len(cs), ctx())
		}
		a := 2 / float64(period+1)
		want := mean(0, period) // the last value belongs to the newest candle
		for i, k := 0, period-1; i < len(ema); k++ {
			if k >= period {
				want += a * (cs[k].Close - want)
			}
			if k >= len(cs)-len(ema) {
				same("ExponentialMovingAverage", i, ema[i], want)
				i++
			}
		}
	}
	if fillable && len(cs) > period && len(ema) < len(cs)-period {
		r.fail("length-ExponentialMovingAverage", "%d values for %d candles; %s", len(ema), len(cs), ctx())
	}
	r.state(30, bucketLen(len(cs)), period, b2i(fillable), len(ma))
	r.eval(hashFloat(uint64(len(ma)), sumOf(ma)))

	rp := ask.rsi
	var rsi []float32
	var err error
	r.lib("RSI", func() { rsi, err = indicators.RSI(cs, rp) })
	period = rp
	if bad := len(cs) < 14 || rp < 1; (err != nil) != bad && !(err != nil && rp >= len(cs)) {
		r.fail("rsi-error", "RSI(%d) over %d candles gives %v, %s", rp, len(cs), rsi, errText(err))
	}
	if err == nil {
		want := len(cs) - rp
		if want < 0 {
			want = 0
		}
		if len(rsi) != want {
			r.fail("length-RSI", "%d values for %d windows; %s", len(rsi), want, ctx())
		}
		for i, v := range rsi {
			up, down := 0.0, 0.0
			for k := i; k < i+rp; k++ {
				if d := cs[k+1].Close - cs[k].Close; d > 0 {
					up += d
				} else {
					down -= d
				}
			}
			if up+down == 0 {
				continue
			}
			if want := 100 * up / (up + down); !(math.Abs(float64(v)-want) <= 1e-4) {
				r.fail("value-RSI", "value %d of RSI is %v, its definition gives %v; %s", i, v, want, ctx())
			}
		}
		r.eval(uint64(len(rsi)))
	}

	beta := ask.beta
	var ewv float64
	r.lib("ExponentialWeightedVolatility", func() { ewv = indicators.ExponentialWeightedVolatility(cs, beta) })
	v, most := 0.0, 0.0
	for _, c := range cs {
		v += (1 - beta) * (c.High - c.Low - v)
		most = math.Max(most, math.Max(math.Abs(c.High), math.Abs(c.Low)))
	}
	if !near(ewv, v, most) {
		r.fail("value-ExponentialWeightedVolatility", "with beta %v the volatility is %v, its definition gives %v", beta, ewv, v)
	}
	r.eval(hashFloat(1, ewv))

	var got []indicators.WilliamFractal
	r.lib("WilliamFractals", func() { got = indicators.WilliamFractals(cs) })
	r.checkFractals(cs, got)
	r.eval(uint64(len(got)))
}

func sumOf(v []float64) float64 {
	t := 0.0
	for _, x := range v {
		t += x
	}
	return t
}

func closesText(cs []market.Candle) string {
	var out []byte
	for i, c := range cs {
		if i == 40 {
			out = append(out, "..."...)
			break
		}
		if i > 0 {
			out = append(out, ' ')
		}
		out = fmt.Appendf(out, "%v", c.Close)
	}
	return "[" + string(out) + "]"
}

// checkFractals finds the fractals in its own way.
func (r *Run) checkFractals(cs []market.Candle, got []indicators.WilliamFractal) {
	var want []indicators.WilliamFractal
	for t := 2; t+2 < len(cs); t++ {
		for _, up := range []bool{true, false} {
			x := func(i int) float64 { // how far candle i stays inside candle t
				if up {
					return cs[t].High - cs[i].High
				}
				return cs[i].Low - cs[t].Low
			}
			if x(t-2) <= 0 || x(t-1) <= 0 {
				continue
			}
			inside := 0
			for i := t + 1; i < len(cs) && inside < 2 && x(i) >= 0; i++ {
				if x(i) > 0 {
					inside++
				}
			}
			if inside < 2 {
				continue
			}
			f := indicators.WilliamFractal{Time: cs[t].Time, Price: cs[t].High, Type: indicators.FractalUp}
			if !up {
				f.Price, f.Type = cs[t].Low, indicators.FractalDown
			}
			want = append(want, f)
		}
	}
	have := map[indicators.WilliamFractal]int{}
	for _, f := range got {
		have[f]++
	}
	for _, f := range want {
		if have[f]--; have[f] < 0 {
			r.fail("fractal-missing", "the %s fractal at %d (%v) is not reported; lows and highs %s", f.Type, f.Time, f.Price, rangesText(cs))
		}
	}
	for _, f := range got {
		if have[f] > 0 {
			r.fail("fractal-false", "a %s fractal at %d (%v) is reported; lows and highs %s", f.Type, f.Time, f.Price, rangesText(cs))
		}
	}
	for i := range got { // in the order of the candles
		if got[i].Time != want[i].Time {
			r.fail("fractal-order", "fractal %d is the one at %d, not the one at %d", i, got[i].Time, want[i].Time)
		}
	}
}

func rangesText(cs []market.Candle) string {
	var out []byte
	for i, c := range cs {
		if i == 40 {
			out = append(out, "..."...)
			break
		}
		out = fmt.Appendf(out, " %d:%v-%v", c.Time, c.Low, c.High)
	}
	return string(out)
}

// execution is one part of an order as the venue reports it.
type execution struct {
	id     string
	order  int
	action market.ActionType
	price  float64
	qty    float64
	cost   float64 // what was paid, or received, with the fee
	at     time.Time
}

// session is a node's bookkeeping.
type session struct {
	r        *Run
	pair     market.Pair
	orders   []*market.Order
	pos      *market.Position // the open one
	booked   map[string]bool
	fees     float64
	realized float64
	// kept independently
	cash, qty, turnover, moved, paidFees float64
	filled                               []float64
	// what the library has made, and what it was then
	requests, requestsWere []*market.OrderRequest
	trades, tradesWere     []*market.Trade
	closed                 []*market.Position
	closedWere             []market.Position
}

// runSession keeps the books of one session, or of two at once.
func runSession(r *Run) {
	sessions := make([]func(), 1+b2i(r.src.Chance(1, 5)))
	for i := range sessions {
		sessions[i] = r.session
	}
	r.parallel(sessions...)
}

func (r *Run) session() {
	s := r.src
	f := newFills(r)
	if s.Chance(1, 16) {
		f.pair.Quote = market.Asset{}
	}
	sn := &session{r: r, pair: f.pair, booked: map[string]bool{}}
	var sent []execution
	for i, n := 0, 1+s.N(6); i < n; i++ {
		sent = append(sent, sn.order(f)...)
	}
	lf := r.swarmLink()
	restarts := s.Rate()
	take := func(ms []message) {
		for _, m := range ms {
			if restarts > 0 && s.Chance(restarts, 1000) {
				sn.restart()
			}
			if s.Chance(1, 30) { // executions on their way still arrive
				r.fault("cancel")
				k := s.N(len(sn.orders))
				if o := sn.orders[k]; o.Status != market.FulfilledOrder {
					o.Status = market.CanceledOrder
				}
				sn.checkOpen(k)
			}
			sn.book(f, sent[m.item])
		}
	}
	take(r.transmit(len(sent), 1e9, lf))
	take(r.transmit(len(sent), 1e9, linkFaults{dup: lf.dup, late: lf.late})) // resent
	for i, o := range sn.orders {
		if !near(sn.filled[i], o.Volume, o.Volume) {
			r.fail("order-size", "order %d was sized %v, its executions add up to %v", i, o.Volume, sn.filled[i])
		}
		if o.Status != market.FulfilledOrder {
			r.fail("order-open", "order %d is %s after all of its executions", i, o.Status)
		}
	}
	for i, q := range sn.requests {
		if !same(*q, *sn.requestsWere[i]) {
			r.fail("request-changed", "a request that was %+v has become %+v", *sn.requestsWere[i], *q)
		}
	}
	for i, p := range sn.closed {
		if !samePosition(p, &sn.closedWere[i]) {
			r.fail("position-changed", "a closed position that was %+v has become %+v", sn.closedWere[i], *p)
		}
	}
	for i, t := range sn.trades {
		if !same(*t, *sn.tradesWere[i]) {
			r.fail("trade-changed", "a trade that was %+v has become %+v", *sn.tradesWere[i], *t)
		}
	}
}

func (sn *session) keepRequest(q *market.OrderRequest) {
	was := *q
	sn.requests, sn.requestsWere = append(sn.requests, q), append(sn.requestsWere, &was)
}

func (sn *session) keepTrade(t *market.Trade) {
	was := *t
	sn.trades, sn.tradesWere = append(sn.trades, t), append(sn.tradesWere, &was)
}

// order sizes an order, sends it, and returns how the venue executes it.
func (sn *session) order(f *fills) []execution {
	r, s := sn.r, sn.r.src
	action := []market.ActionType{market.BuyAction, market.SellAction}[s.N(2)]
	kinds := []market.OrderType{market.MarketOrder, market.LimitOrder, market.TakeProfit, market.StopLoss, market.ClosePosition}
	kind := kinds[s.N(len(kinds))]
	current, limit := f.price(), f.price()
	qty, total := 0.0, 0.0
	if s.Chance(1, 2) {
		total = float64(1+s.N(1<<16)) / 64 * f.tick
	} else {
		qty = float64(1+s.N(50)) * f.unit
	}
	if kind == market.MarketOrder && s.Chance(1, 2) {
		limit = 0
	}
	if s.Chance(1, 12) { // a careless strategy
		r.fault("bad-request")
		sn.badRequest(f, action, kind, qty, limit, total, current)
	}
	var req, full *market.OrderRequest
	var err error
	r.lib("NewOrderRequest", func() { req, err = market.NewOrderRequest(sn.pair, action, kind, qty, limit, total) })
	if err != nil {
		r.fail("request-refused", "a sound request is refused: %v", err)
	}
	want := market.OrderRequest{Action: action, Type: kind, Pair: sn.pair, Price: limit, Quantity: qty, Total: total}
	if !same(*req, want) {
		r.fail("request-differs", "the request is %+v, not %+v", *req, want)
	}
	if s.Chance(1, 3) { // the operator's limits
		req.TakeProfit, req.StopLoss = f.price(), f.price()
		want.TakeProfit, want.StopLoss = req.TakeProfit, req.StopLoss
	}
	sn.keepRequest(req)
	r.lib("CalculateFields", func() { full, err = req.CalculateFields(current) })
	if err != nil {
		r.fail("request-refused", "a sound request cannot be calculated: %v", err)
	}
	price := limit
	if kind == market.MarketOrder {
		price = current
	}
	if qty != 0 {
		want.Total = qty * price
	} else {
		want.Quantity = total / price
	}
	if !near(full.Quantity, want.Quantity, 0) || !near(full.Total, want.Total, 0) {
		r.fail("request-size", "an order for quantity %v or total %v at %v is sized quantity %v, total %v", qty, total, price, full.Quantity, full.Total)
	}
	rest := *full
	rest.Quantity, rest.Total = want.Quantity, want.Total
	if !same(rest, want) {
		r.fail("request-differs", "the calculated request is %+v, not %+v", *full, want)
	}
	sn.keepRequest(full)
	if r.tracing {
		r.logf("order %d: %s %s of %v at %v (limit %v, market %v)", len(sn.orders), action, kind, full.Quantity, price, limit, current)
	}
	r.eval(hashFloat(hashFloat(3, full.Quantity), full.Total))

	k := len(sn.orders)
	o := &market.Order{ID: fmt.Sprintf("o%d", k), Action: action, Type: kind, Pair: &sn.pair, Price: limit, Volume: full.Quantity, Status: market.UnfilledOrder}
	sn.orders = append(sn.orders, o)
	sn.filled = append(sn.filled, 0)
	sn.checkOpen(k)
	var out []execution
	left := full.Quantity
	rate := []float64{0, 0.001, 0.0026, 0.05, -0.0001}[s.N(5)]
	if s.Chance(1, 16) { // the minimum fee of a tiny order, a gift
		rate = []float64{1, 4, -1, -4, 0.9}[s.N(5)]
	}
	for n := 1 + s.N(4); n > 0; n-- {
		q := left
		if n > 1 {
			q = left * float64(1+s.N(9)) / 10
		}
		f.seq++
		f.now += int64(s.N(100))
		e := execution{id: fmt.Sprintf("x%d", f.seq), order: k, action: action, qty: q, price: f.price(), at: time.Unix(f.now, 0).UTC()}
		switch s.N(24) {
		case 1:
			e.id += "-4f0c2b7e-9d1a-4c55-8e63-000000000000"
		case 2:
			e.at = time.Time{}
		}
		value := e.price * q
		fee := value * rate
		e.cost = value + fee
		if action == market.SellAction {
			e.cost = value - fee
		}
		left -= q
		out = append(out, e)
	}
	return out
}

// badRequest sends requests that cannot be sized.
func (sn *session) badRequest(f *fills, action market.ActionType, kind market.OrderType, qty, limit, total, current float64) {
	r, s := sn.r, sn.r.src
	pair := sn.pair
	what := ""
	switch s.N(5) {
	case 0:
		qty, total, what = 0, 0, "neither quantity nor total"
	case 1:
		pair, what = market.Pair{}, "no pair"
	case 2:
		action, what = "", "no action"
	case 3:
		kind, what = "", "no type"
	case 4:
		kind, limit, what = market.LimitOrder, 0, "a limit order without price"
	}
	var req *market.OrderRequest
	var err error
	r.lib("NewOrderRequest", func() { req, err = market.NewOrderRequest(pair, action, kind, qty, limit, total) })
	if err == nil || req != nil {
		r.fail("request-accepted", "a request with %s is accepted", what)
	}
	both := &market.OrderRequest{Action: market.BuyAction, Type: market.MarketOrder, Pair: sn.pair, Quantity: 2, Total: 3}
	if s.Chance(1, 2) {
		both.Quantity, both.Total = 0, 0
	}
	r.lib("CalculateFields", func() { req, err = both.CalculateFields(current) })
	if err == nil {
		r.fail("request-accepted", "a request with quantity %v and total %v is calculated", both.Quantity, both.Total)
	}
	// without a price nobody knows how much a total buys
	worth := &market.OrderRequest{Action: action, Type: kind, Pair: sn.pair, Price: limit, Total: 1 + float64(s.N(100))}
	if kind == market.MarketOrder {
		current = 0
	} else {
		worth.Price = 0
	}
	was := *worth
	r.lib("CalculateFields", func() { req, err = worth.CalculateFields(current) })
	if err == nil {
		r.fail("request-accepted", "a %s request for a total of %v without a price is calculated: quantity %v", kind, worth.Total, req.Quantity)
	}
	if *worth != was {
		r.fail("request-changed", "a refused request that was %+v has become %+v", was, *worth)
	}
	r.eval(4)
}

func (sn *session) checkOpen(k int) {
	r, o := sn.r, sn.orders[k]
	var open bool
	r.lib("IsOpen", func() { open = o.IsOpen() })
	if want := o.Status != market.FulfilledOrder && o.Status != market.CanceledOrder; open != want {
		r.fail("is-open", "an order that is %s counts as open: %v", o.Status, open)
	}
	if s := r.src; s.Chance(1, 16) { // nothing but the status counts
		states := []market.OrderStatus{market.UnfilledOrder, market.PartialyFilledOrder, market.FulfilledOrder, market.CanceledOrder, "", "pending", "expired", "rejected"}
		x := *o
		x.Status = states[s.N(len(states))]
		switch s.N(4) {
		case 1:
			x.ExecutedVolume = x.Volume
		case 2:
			x.CloseTime = time.Unix(1600000000, 0)
		case 3:
			x.ExecutedVolume, x.Volume = 1e9, 1e9
		}
		r.lib("IsOpen", func() { open = x.IsOpen() })
		if want := x.Status != market.FulfilledOrder && x.Status != market.CanceledOrder; open != want {
			r.fail("is-open", "an order with status %q, %v of %v executed, counts as open: %v", x.Status, x.ExecutedVolume, x.Volume, open)
		}
	}
	r.eval(5)
}

// restart loses the process; orders and position come back from the store.
func (sn *session) restart() {
	r := sn.r
	if sn.pos != nil {
		sn.pos = r.restore(sn.pos)
	} else {
		r.fault("restart")
	}
	for i, o := range sn.orders {
		b, err := json.Marshal(o)
		if err != nil {
			r.fail("store", "order cannot be stored: %v", err)
		}
		back, out := &market.Order{}, &market.Order{}
		if err := json.Unmarshal(b, back); err != nil {
			r.fail("store", "order cannot be restored: %v", err)
		}
		r.lib("Order.Update", func() { err = out.Update(back) })
		if err != nil {
			r.fail("store", "restored order is refused: %v", err)
		}
		sn.orders[i] = out
		sn.checkOpen(i)
	}
	sn.balance(1)
}

// book takes one execution from the feed.
func (sn *session) book(f *fills, e execution) {
	r, s := sn.r, sn.r.src
	if sn.booked[e.id] {
		return
	}
	sn.booked[e.id] = true
	o := sn.orders[e.order]
	o.ExecutedVolume += e.qty
	sn.filled[e.order] += e.qty
	if o.ExecutedVolume >= o.Volume*(1-1e-9) {
		o.Status = market.FulfilledOrder
	} else if o.Status != market.CanceledOrder {
		o.Status = market.PartialyFilledOrder
	}
	left, cost := e.qty, e.cost
	for part := 0; left > 0; part++ {
		q := left
		if p := sn.pos; p != nil && (p.Type == market.LongPosition) != (e.action == market.BuyAction) && q > p.Quantity {
			q = p.Quantity // closes it; the rest opens another one
		}
		c := cost * (q / left)
		id := fmt.Sprintf("%s.%d", e.id, part)
		var t *market.Trade
		r.lib("NewTrade", func() { t = market.NewTrade(id, e.at, e.action, o.Type, sn.pair, e.price, q, c) })
		want := market.Trade{ID: id, ExecutionTime: e.at, Action: e.action, OrderType: o.Type, Pair: sn.pair, Price: e.price, Quantity: q, Cost: c, Fee: t.Fee}
		if s.Chance(1, 32) { // the venue gave it no ID
			r.lib("NewTrade", func() { t = market.NewTrade("", e.at, e.action, o.Type, sn.pair, e.price, q, c) })
			if t.ID != "" {
				r.fail("trade-differs", "a trade without ID got the ID %q", t.ID)
			}
			t.ID = id
			want.Fee = t.Fee
		}
		if !same(*t, want) {
			r.fail("trade-differs", "the trade is %+v, not %+v", *t, want)
		}
		sn.keepTrade(t)
		sn.fees += t.Fee
		value := e.price * q
		fee := c - value
		if e.action == market.SellAction {
			fee = value - c
		}
		if !(math.Abs(t.Fee-fee) <= 1e-12*(value+math.Abs(c))) {
			r.fail("fee", "a %s of %v at %v for %v carries a fee of %v, not %v", e.action, q, e.price, c, t.Fee, fee)
		}
		sn.turnover += value
		sn.moved += q
		if e.action == market.BuyAction {
			sn.cash -= c
			sn.qty += q
			sn.paidFees += c - value
		} else {
			sn.cash += c
			sn.qty -= q
			sn.paidFees += value - c
		}
		if sn.pos == nil {
			sn.pos = r.newPosition(t)
			want := market.Position{ID: sn.pos.ID, Type: market.LongPosition, Pair: sn.pair, Open: true, OpenPrice: e.price, Quantity: q, OpenTime: e.at, Trades: []string{id}}
			if e.action == market.SellAction {
				want.Type = market.ShortPosition
			}
			if near(sn.pos.OpenPrice, e.price, 0) && near(sn.pos.Quantity, q, 0) { // up to rounding
				want.OpenPrice, want.Quantity = sn.pos.OpenPrice, sn.pos.Quantity
			}
			if !samePosition(sn.pos, &want) {
				r.fail("position-differs", "the position opened by %s is %+v, not %+v", tradeText(t), *sn.pos, want)
			}
		} else if err := r.modify(sn.pos, t); err != nil {
			r.fail("fill-refused", "trade %s does not apply to %s: %v", tradeText(t), positionText(sn.pos), err)
		}
		o.Trades = append(o.Trades, id)
		if !sn.pos.Open {
			sn.realized += sn.pos.Profit
			sn.closed, sn.closedWere = append(sn.closed, sn.pos), append(sn.closedWere, clonePosition(sn.pos))
			sn.pos = nil
		}
		left -= q
		cost -= c
		if left <= 1e-9*e.qty {
			left = 0
		}
		sn.balance(f.price())
		if s.Chance(1, 4) {
			sn.balance(e.price)
		}
		r.state(31, b2i(sn.pos == nil), b2i(e.action == market.BuyAction), part, len(o.Trades), len(sn.orders))
	}
	sn.checkOpen(e.order)
}

// balance: cash plus goods equals profits minus fees.
func (sn *session) balance(price float64) {
	r := sn.r
	tol := 1e-8 * (sn.turnover + price*sn.moved) // closing leaves dust
	if !(math.Abs(sn.fees-sn.paidFees) <= 1e-9*sn.turnover) {
		r.fail("fees", "the trades carry fees of %v, paid were %v", sn.fees, sn.paidFees)
	}
	open := 0.0
	if sn.pos != nil {
		r.lib("UnrealizedProfit", func() { open = sn.pos.UnrealizedProfit(price) })
	}
	cashAndGoods := sn.cash + sn.qty*price
	if got := sn.realized + open - sn.fees; !(math.Abs(got-cashAndGoods) <= tol) {
		r.fail("balance", "at price %v realized %v + unrealized %v - fees %v = %v, but cash %v and goods %v are worth %v", price, sn.realized, open, sn.fees, got, sn.cash, sn.qty, cashAndGoods)
	}
	if r.tracing {
		r.logf("balance at %v: realized %v unrealized %v fees %v cash %v goods %v", price, sn.realized, open, sn.fees, sn.cash, sn.qty)
	}
	r.eval(hashFloat(6, cashAndGoods))
}
