package main

import (
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"

	"github.com/vanclief/finmod/market"
)

func marked() bool { return runtime.VerifMarked() }

// near compares two numbers up to rounding, relative to a scale.
func near(a, b, scale float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	m := math.Max(math.Abs(scale), math.Max(math.Abs(a), math.Abs(b)))
	return math.Abs(a-b) <= 1e-9*m
}

func sameBits(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

func sameCandle(a, b market.Candle) bool {
	return a.Time == b.Time && sameBits(a.Open, b.Open) && sameBits(a.High, b.High) &&
		sameBits(a.Low, b.Low) && sameBits(a.Close, b.Close) && sameBits(a.Volume, b.Volume)
}

func sameCandles(a, b []market.Candle) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameCandle(a[i], b[i]) {
			return false
		}
	}
	return true
}

func diffCandles(want, got []market.Candle) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%d candles expected, %d returned", len(want), len(got))
	}
	for i := range want {
		if !sameCandle(want[i], got[i]) {
			return fmt.Sprintf("candle %d: expected %s, returned %s", i, candleText(want[i]), candleText(got[i]))
		}
	}
	return "equal"
}

// candleText avoids the library's own formatting.
func candleText(c market.Candle) string {
	return fmt.Sprintf("{t=%d o=%v h=%v l=%v c=%v v=%v}", c.Time, c.Open, c.High, c.Low, c.Close, c.Volume)
}

func hashCandles(cs []market.Candle) uint64 {
	h := uint64(len(cs))
	for _, c := range cs {
		h = hash2(h, uint64(c.Time))
		h = hash2(h, math.Float64bits(c.Close)^math.Float64bits(c.Volume))
	}
	return h
}

func hashFloat(h uint64, f float64) uint64 { return hash2(h, math.Float64bits(f)) }

func rowsText(rows []market.OrderBookRow) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, x := range rows {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%v:%v", x.Price, x.Volume)
	}
	b.WriteByte(']')
	return b.String()
}

func cloneRows(rows []market.OrderBookRow) []market.OrderBookRow {
	return append(make([]market.OrderBookRow, 0, len(rows)), rows...)
}

func sameRows(a, b []market.OrderBookRow) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func cloneBook(b market.OrderBook) market.OrderBook {
	b.Asks = cloneRows(b.Asks)
	b.Bids = cloneRows(b.Bids)
	return b
}

func sameBook(a, b market.OrderBook) bool {
	return a.Time == b.Time && a.MaxDepth == b.MaxDepth && sameRows(a.Asks, b.Asks) && sameRows(a.Bids, b.Bids)
}

func bookText(b market.OrderBook) string {
	return fmt.Sprintf("depth=%d bids=%s asks=%s", b.MaxDepth, rowsText(b.Bids), rowsText(b.Asks))
}

func hashBook(b market.OrderBook) uint64 {
	h := uint64(len(b.Asks))<<8 | uint64(len(b.Bids))
	for _, x := range b.Asks {
		h = hashFloat(hashFloat(h, x.Price), x.Volume)
	}
	for _, x := range b.Bids {
		h = hashFloat(hashFloat(h, -x.Price), x.Volume)
	}
	return h
}

// message is something on its way through the simulated network.
type message struct {
	at   int64 // arrival, nanoseconds after the start
	tie  int
	item int // index of what was sent
}

// linkFaults describes how badly a link behaves, in thousandths.
type linkFaults struct{ loss, dup, late, partition int }

func (r *Run) swarmLink() linkFaults {
	s := r.src
	return linkFaults{loss: s.Rate(), dup: s.Rate(), late: s.Rate(), partition: s.Rate() / 4}
}

// transmit sends n messages, one every gap, over a link and returns what
// arrives, in order of arrival.
func (r *Run) transmit(n int, gap int64, lf linkFaults) []message {
	s := r.src
	var out []message
	cut := 0
	for i := 0; i < n; i++ {
		sent := int64(i) * gap
		if cut > 0 {
			cut--
			r.fault("partition")
			continue
		}
		if lf.partition > 0 && s.Chance(lf.partition, 1000) {
			cut = s.N(8)
			r.fault("partition")
			continue
		}
		if lf.loss > 0 && s.Chance(lf.loss, 1000) {
			r.fault("loss")
			continue
		}
		delay := int64(0)
		if lf.late > 0 && s.Chance(lf.late, 1000) {
			r.fault("delay")
			delay = gap * int64(1+s.N(12))
		}
		out = append(out, message{sent + delay, len(out), i})
		if lf.dup > 0 && s.Chance(lf.dup, 1000) {
			r.fault("duplicate")
			out = append(out, message{sent + gap*int64(s.N(12)), len(out), i})
		}
	}
	sort.SliceStable(out, func(a, b int) bool {
		if out[a].at != out[b].at {
			return out[a].at < out[b].at
		}
		return out[a].tie < out[b].tie
	})
	r.advance(int64(n) * gap)
	return out
}

func errText(err error) string {
	if err == nil {
		return "no error"
	}
	return "error: " + err.Error()
}
