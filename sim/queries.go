package main

import (
	"fmt"
	"reflect"
	"time"

	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
)

func init() {
	scenarios["C16"] = &scenario{
		run:      runQueries,
		rule:     "1 to 4 tasks run queries and indicators over windows of shared candles and over shared books and positions, preempted at single statements, with foreign memory around every window; non-trivial: at least one preemption or fault; distinct: signature over schedule, queries and results",
		quick:    480000,
		thorough: 5000000,
		assume:   []string{"nobody writes the shared data while the queries run"},
	}
}

// query is one call with the answer it gives alone on private memory.
type query struct {
	name  string
	ask   func() interface{}
	alone func()
	want  interface{}
}

type answer struct {
	vals interface{}
	err  bool
}

func sameAnswer(a, b interface{}) string {
	x, y := a.(answer), b.(answer)
	if x.err != y.err {
		return fmt.Sprintf("error: %v, not %v", x.err, y.err)
	}
	if x.vals == nil || y.vals == nil {
		if x.vals != y.vals {
			return "missing on one side"
		}
		return ""
	}
	return diffValue(reflect.ValueOf(x.vals), reflect.ValueOf(y.vals))
}

// keep copies an answer, so that later changes of its memory show.
func keep(a interface{}) interface{} {
	x := a.(answer)
	if x.vals == nil {
		return x
	}
	src := reflect.ValueOf(x.vals)
	dst := reflect.New(src.Type()).Elem()
	copyValue(dst, src)
	return answer{dst.Interface(), x.err}
}

func (r *Run) poison(n int) []market.Candle {
	out := make([]market.Candle, n)
	for i := range out {
		v := float64(1+r.src.N(9)) * 1e9
		out[i] = market.Candle{Time: 1619827200 + 60*int64(r.src.N(1000)), Open: v, High: v + 1, Low: -v, Close: v, Volume: v}
	}
	return out
}

func runQueries(r *Run) {
	s := r.src
	n := s.N([]int{6, 20, 60}[s.N(3)])
	if s.Chance(1, 100) {
		n = s.N(400)
	}
	private := r.walk(n, 1619827200+60*int64(s.N(100)), 60)
	if s.Chance(1, 4) { // as a careless feed leaves them
		r.fault("disorder")
		for k := s.N(4); k > 0 && n > 0; k-- {
			i, j := s.N(n), s.N(n)
			if s.Chance(1, 2) {
				private[i], private[j] = private[j], private[i]
			} else {
				private[i] = private[j]
			}
		}
	}
	pre := s.N(20)
	buf := append(r.poison(pre), private...)
	buf = append(buf, r.poison(s.N(20))...)
	pristine := append([]market.Candle{}, buf...)
	window := buf[pre : pre+n]
	if n == 0 && s.Chance(1, 2) {
		window, private = nil, nil
	}

	fa, fb := newFeed(r, 1+s.N(8), 6, linkFaults{}), newFeed(r, 1+s.N(8), 6, linkFaults{})
	books := []*market.OrderBook{&fa.ob, &fb.ob}
	// sides that end inside a larger buffer
	var spare [][]market.OrderBookRow
	behind := market.OrderBookRow{Price: -3, Volume: -5, AccumVolume: -7}
	if s.Chance(1, 2) {
		for _, b := range books {
			for _, side := range []*[]market.OrderBookRow{&b.Asks, &b.Bids} {
				rows := append(append(make([]market.OrderBookRow, 0, len(*side)+2), *side...), behind, behind)
				*side = rows[:len(*side)]
				spare = append(spare, rows[len(*side):])
			}
		}
	}
	booksWere := []market.OrderBook{cloneBook(fa.ob), cloneBook(fb.ob)}
	f := newFills(r)
	pos := r.newPosition(f.trade([]market.ActionType{market.BuyAction, market.SellAction}[s.N(2)], float64(1+s.N(9))*f.unit))
	if s.Chance(1, 2) {
		pos.Open, pos.ClosePrice, pos.Profit, pos.CloseTime = s.Chance(1, 2), f.price(), 3, pos.OpenTime
		pos.TakeProfit = market.PositionCloseOrder{Price: f.price(), OrderID: "tp"}
		pos.StopLoss = market.PositionCloseOrder{Price: f.price(), OrderID: "sl"}
		pos.Trades = append(pos.Trades, "t8", "t9")
	}
	posWas := clonePosition(pos)
	req := &market.OrderRequest{Action: market.BuyAction, Type: []market.OrderType{market.MarketOrder, market.LimitOrder}[s.N(2)], Pair: pairOf("BTC", "USD"), Price: f.price()}
	if s.Chance(1, 2) {
		req.Quantity = float64(s.N(5))
	} else {
		req.Total = float64(s.N(5))
	}
	if s.Chance(1, 2) {
		req.Action, req.TakeProfit, req.StopLoss = market.SellAction, f.price(), f.price()
	}
	reqWas := *req
	tr := f.trade(market.BuyAction, 2)
	trWas := *tr

	// make a query on given data; the same one is asked alone and among others
	draw := func() (string, func(cs []market.Candle) interface{}) {
		period := s.N(18) - 1
		if n > 60 && s.Chance(1, 2) {
			period = s.N(n + 2)
		}
		beta := float64(s.N(101)) / 100
		minutes := []int{1, 5, 15, 60, 2, 3, 0}[s.N(7)]
		price := f.price()
		k := s.N(14)
		switch k {
		case 0:
			return "MovingAverage", func(cs []market.Candle) interface{} {
				v, err := indicators.MovingAverage(cs, period)
				return answer{v, err != nil}
			}
		case 1:
			return "ExponentialMovingAverage", func(cs []market.Candle) interface{} {
				v, err := indicators.ExponentialMovingAverage(cs, period)
				return answer{v, err != nil}
			}
		case 2:
			return "SmoothedMovingAverage", func(cs []market.Candle) interface{} {
				v, err := indicators.SmoothedMovingAverage(cs, period)
				return answer{v, err != nil}
			}
		case 3, 4:
			return "RSI", func(cs []market.Candle) interface{} {
				v, err := indicators.RSI(cs, period)
				return answer{v, err != nil}
			}
		case 5:
			return "ExponentialWeightedVolatility", func(cs []market.Candle) interface{} {
				return answer{indicators.ExponentialWeightedVolatility(cs, beta), false}
			}
		case 6:
			return "WilliamFractals", func(cs []market.Candle) interface{} { return answer{indicators.WilliamFractals(cs), false} }
		case 7:
			return "ModifyInterval", func(cs []market.Candle) interface{} {
				v, err := market.ModifyInterval(cs, minutes)
				return answer{v, err != nil}
			}
		case 8:
			return "GetMinInterval", func(cs []market.Candle) interface{} {
				if len(cs) < 2 {
					return answer{0, false}
				}
				return answer{market.GetMinInterval(cs), false}
			}
		case 9:
			b := books[s.N(2)]
			if len(b.Asks) > 0 && s.Chance(1, 2) {
				price = b.Asks[s.N(len(b.Asks))].Price
			} else if len(b.Bids) > 0 {
				price = b.Bids[s.N(len(b.Bids))].Price
			}
			return "GetDepth", func([]market.Candle) interface{} {
				v, err := b.GetDepth(price)
				return answer{v, err != nil}
			}
		case 10:
			x, y := books[s.N(2)], books[s.N(2)]
			return "CalculateOverlap", func([]market.Candle) interface{} {
				v, err := market.CalculateOverlap(*x, *y)
				return answer{v, err != nil}
			}
		case 11:
			return "UnrealizedProfit", func([]market.Candle) interface{} { return answer{pos.UnrealizedProfit(price), false} }
		case 12:
			return "CalculateFields", func([]market.Candle) interface{} {
				v, err := req.CalculateFields(price)
				if err != nil {
					return answer{nil, true}
				}
				if v == req {
					r.fail("request-aliased", "the calculated request is the request itself")
				}
				return answer{*v, false}
			}
		}
		b := books[s.N(2)]
		return "String", func(cs []market.Candle) interface{} {
			text := b.String() + pos.String() + tr.String() + req.String()
			if len(cs) > 0 {
				c := cs[len(cs)-1]
				text += c.String()
			}
			return answer{text, false}
		}
	}
	time.Local = time.UTC

	tasks := 1 + s.N(4)
	later := s.Chance(1, 2) // the queries are asked alone after they were asked among others
	lists := make([][]*query, tasks)
	var all []*query
	for i := range lists {
		for k, m := 0, 1+s.N(5); k < m; k++ {
			name, ask := draw()
			lo, hi := 0, len(private)
			if s.Chance(1, 2) && len(private) > 0 {
				lo = s.N(len(private))
				hi = lo + s.N(len(private)-lo+1)
			}
			var win []market.Candle
			if private != nil {
				win = window[lo:hi]
			}
			q := &query{name: name}
			q.alone = func() {
				var own []market.Candle
				if private != nil {
					own = append(make([]market.Candle, 0, hi-lo), private[lo:hi]...)
					own = own[:len(own):len(own)]
				}
				r.lib(name, func() { q.want = keep(ask(own)) })
			}
			if !later {
				q.alone()
			}
			q.ask = func() interface{} { return ask(win) }
			lists[i] = append(lists[i], q)
			all = append(all, q)
		}
	}
	unchanged := func(name string) {
		if !sameCandles(buf, pristine) {
			r.fail("candles-changed", "%s changed the candles (or the memory around them): %s", name, diffCandles(pristine, buf))
		}
		for i := range books {
			if !sameBook(*books[i], booksWere[i]) {
				r.fail("book-changed", "%s changed a book from %s to %s", name, bookText(booksWere[i]), bookText(*books[i]))
			}
		}
		for _, rows := range spare {
			for i := range rows {
				if rows[i] != behind {
					r.fail("book-changed", "%s changed the memory behind a book", name)
				}
			}
		}
		if !samePosition(pos, &posWas) || !same(*tr, trWas) || !same(*req, reqWas) {
			r.fail("argument-changed", "%s changed its argument", name)
		}
	}
	compare := func(q *query, got interface{}) {
		if d := sameAnswer(got, q.want); d != "" {
			r.fail("depends", "%s over a window of shared memory among other tasks differs from %s alone on private memory: %s", q.name, q.name, d)
		}
	}
	type kept struct {
		q         *query
		got, copy interface{}
	}
	results := make([][]kept, tasks)
	fns := make([]func(), tasks)
	for i := range fns {
		i := i
		fns[i] = func() {
			for k, q := range lists[i] {
				var got interface{}
				r.lib(q.name, func() { got = q.ask() })
				if !later {
					compare(q, got)
				}
				unchanged(q.name)
				results[i] = append(results[i], kept{q, got, keep(got)})
				r.state(22, tasks, len(q.name), k, bucketLen(n), pre)
				r.eval(hashStr(uint64(i), q.name))
				if r.tracing {
					r.logf("task %d: %s answers", i+1, q.name)
				}
			}
		}
	}
	r.parallel(fns...)
	if later {
		elsewhere := s.Chance(1, 2) // by a process that has not answered anything yet
		alone := func() {
			for i := range results {
				for _, k := range results[i] {
					k.q.alone()
					compare(k.q, k.copy)
				}
			}
		}
		if elsewhere {
			r.process(alone)
		} else {
			alone()
		}
		unchanged("a query asked alone")
	}
	// the candles are revised in place, and the same is asked again
	if n > 0 && len(private) > 0 && s.Chance(1, 4) {
		for k := s.N(3); k >= 0; k-- {
			r.revise(window)
		}
		copy(private, window)
		copy(pristine, buf)
		again := make([]interface{}, len(all))
		for i, q := range all {
			r.lib(q.name, func() { again[i] = keep(q.ask()) })
		}
		unchanged("a query asked again")
		r.process(func() {
			for i, q := range all {
				q.alone()
				compare(q, again[i])
			}
		})
	}
	// the callers reuse their memory
	if s.Chance(1, 2) {
		r.fault("memory-reused")
		copy(buf, r.poison(len(buf)))
		for _, b := range books {
			for _, side := range [][]market.OrderBookRow{b.Asks, b.Bids} {
				for k := range side {
					side[k] = market.OrderBookRow{Price: -1, Volume: -1, AccumVolume: -1}
				}
			}
		}
		*pos, *tr, *req = market.Position{}, market.Trade{}, market.OrderRequest{}
	}
	for i := range results {
		for _, k := range results[i] {
			if d := sameAnswer(k.got, k.copy); d != "" {
				r.fail("result-changed", "a result of %s changed after it was returned: %s", k.q.name, d)
			}
		}
	}
}
