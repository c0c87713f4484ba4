package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/zzverifsim"
)

func init() {
	scenarios["C10"] = &scenario{
		run:      twins(runResample),
		rule:     "candles of a venue pass a feed that loses, repeats and batches them before they are resampled, in one run of eight as two such tasks preempted at single statements; non-trivial: at least one feed fault; distinct: signature over faults, series and results",
		quick:    1200000,
		thorough: 14000000,
		assume:   []string{"candles arrive in order of time and on whole minutes, except in the runs of odd spacing, in which only crashes are judged", "the first two candles decide the source spacing"},
	}
	scenarios["C11"] = &scenario{
		run:      runRepaint,
		rule:     "a candle history grows by single candles and batches, is saved, crashes and is loaded in between, and every published value is compared with later ones; non-trivial: at least one fault, restart or crash; distinct: signature over faults and published values",
		quick:    240000,
		thorough: 2800000,
		stub:     []string{"the system calls of the disk (in-memory disk with injected faults)"},
	}
	scenarios["C18"] = &scenario{
		run:      runZones,
		rule:     "the host's time zone and clock are moved, the zone database fails, two tasks at times share a host; non-trivial: at least one fault or a host zone other than UTC; distinct: signature over zones, faults and results",
		quick:    720000,
		thorough: 8000000,
		real:     []string{"the zone database of the host"},
		stub:     []string{"host zone, host clock, system calls that read the zone database"},
	}
}

// walk makes a market-like series; ties are common.
func (r *Run) walk(n int, start, spacing int64) []market.Candle {
	s := r.src
	tick := []float64{1, 0.01, 0.5, 1e-6, 25, 1e4, 1e-9, 1e7}[s.N(8)]
	coarse := []int{2, 5, 50}[s.N(3)]
	p, floor := 100+s.N(1000), 10
	if s.Chance(1, 16) { // a spread, which can be below zero
		p, floor = p-1200, -2000
	}
	lots := []float64{1e-3, 1e-8, 1e-5, 1, 1e6, 1234.56789}[s.N(6)]
	thin := s.Chance(1, 3) // a market where nothing trades at times
	out := make([]market.Candle, n)
	for i := range out {
		step := s.Range(0, 2*coarse) - coarse
		o := p
		p += step
		if p < floor {
			p = floor
		}
		hi, lo := o, p
		if lo > hi {
			hi, lo = lo, hi
		}
		hi += s.N(coarse)
		lo -= s.N(coarse)
		out[i] = market.Candle{Time: start + int64(i)*spacing, Open: float64(o) * tick, High: float64(hi) * tick, Low: float64(lo) * tick,
			Close: float64(p) * tick, Volume: float64(s.N(1<<16)) * lots}
		if thin && s.Chance(1, 3) {
			out[i].Volume = 0
			if s.Chance(1, 2) {
				out[i].Open, out[i].High, out[i].Low = out[i].Close, out[i].Close, out[i].Close
			}
		}
	}
	return out
}

func (r *Run) resample(cs []market.Candle, minutes int) (out []market.Candle, err error) {
	r.lib("ModifyInterval", func() { out, err = market.ModifyInterval(cs, minutes) })
	if r.tracing {
		r.logf("resample %d candles to %d minutes -> %d candles, %s", len(cs), minutes, len(out), errText(err))
	}
	return out, err
}

func minuteOf(t int64) int64 { return ((t % 3600) + 3600) % 3600 / 60 }

// firstAligned is the index of the first candle an interval may start at.
func firstAligned(cs []market.Candle, minutes int) int {
	mod := int64(minutes)
	if mod > 60 {
		mod %= 60
	}
	if mod == 0 {
		mod = 60
	}
	for i, c := range cs {
		if m := minuteOf(c.Time); m%mod == 0 || m == 0 {
			return i
		}
	}
	return -1
}

// resampleRef puts every candle in its bucket.
func resampleRef(cs []market.Candle, minutes int) []market.Candle {
	first := firstAligned(cs, minutes)
	if first < 0 {
		return nil
	}
	pivot := cs[first].Time
	var out []market.Candle
	last := int64(-1)
	for _, c := range cs[first:] {
		b := (c.Time - pivot) / 60 / int64(minutes)
		if b != last {
			out = append(out, market.Candle{Time: pivot + b*60*int64(minutes), Open: c.Open, High: c.High, Low: c.Low, Close: c.Close, Volume: c.Volume})
			last = b
			continue
		}
		o := &out[len(out)-1]
		o.High = math.Max(o.High, c.High)
		o.Low = math.Min(o.Low, c.Low)
		o.Close = c.Close
		o.Volume += c.Volume
	}
	return out
}

func volumeNear(a, b float64) bool { return math.Abs(a-b) <= 1.1e-5+1e-12*math.Abs(a) }

func runResample(r *Run) {
	s := r.src
	if s.Chance(1, 10) {
		r.oddResample()
		return
	}
	spacings := []int{1, 1, 1, 5, 15, 60, 2, 3, 30, 240, 7, 1440, 10080, 44640}
	targets := []int{1, 5, 15, 60, 3, 2, 10, 30, 120, 240, 1440, 4, 45, 90, 7, 0, -5}
	src := spacings[s.N(len(spacings))]
	dst := targets[s.N(len(targets))]
	if s.Chance(1, 3) {
		dst = src * (1 + s.N(12))
	}
	if s.Chance(1, 8) {
		dst = src * (1 + s.N(1+1500/src))
	}
	start := 1619827200 + 60*int64(s.N(3000))
	if s.Chance(1, 3) {
		start = 1619827200 + 3600*int64(s.N(48))
	}
	if s.Chance(1, 20) {
		start -= 1619827200 + 3600*int64(s.N(1000)) // around and before 1970
	}
	if s.Chance(1, 8) {
		start = 60 * int64(s.N(70000000)) // any day until 2103
	}
	if s.Chance(1, 16) {
		start += int64(s.N(60)) // candles that do not start with a minute
	}
	n := s.N(1 + []int{4, 30, 150}[s.N(3)])
	if s.Chance(1, 256) {
		n = s.N(3000)
	}
	all := r.walk(n, start, int64(src)*60)
	lf := r.swarmLink()
	lf.late = 0 // the node keeps its history in order of time
	var cs []market.Candle
	for _, m := range r.transmit(n, 1e9, lf) {
		c := all[m.item]
		if k := len(cs); k > 0 && c.Time < cs[k-1].Time {
			continue // a repetition that comes late is dropped
		}
		cs = append(cs, c)
	}
	mem := make([]market.Candle, 0, len(cs)+1)
	r.judgeResample(cs, mem, src, dst)
	for len(cs) > 0 && s.Chance(1, 3) { // the history is another one, and the same is asked again
		switch s.N(6) {
		case 0: // of another market
			for i, c := range r.walk(len(cs), 0, 60) {
				c.Time = cs[i].Time
				cs[i] = c
			}
		case 1:
			r.revise(cs)
		case 2: // a candle is lost
			r.fault("lost")
			i := s.N(len(cs))
			cs = append(cs[:i], cs[i+1:]...)
		case 3: // the oldest ones go
			cs = cs[s.N(len(cs)):]
		case 4: // it moves by a few intervals
			d := 60 * int64(s.Range(0, 20)-10) * int64(src)
			for i := range cs {
				cs[i].Time += d
			}
		case 5: // one is lost and another one comes
			r.fault("lost")
			i := s.N(len(cs))
			c := cs[len(cs)-1]
			c.Time += 60 * int64(src) * int64(1+s.N(3))
			cs = append(append(cs[:i], cs[i+1:]...), c)
		}
		if s.Chance(1, 2) {
			mem = make([]market.Candle, 0, len(cs)+1)
		}
		r.judgeResample(cs, mem, src, dst)
	}
}

// judgeResample resamples candles that lie in mem.
func (r *Run) judgeResample(cs, mem []market.Candle, src, dst int) {
	arg := append(mem, cs...)
	out, err := r.resample(arg, dst)
	if !sameCandles(arg, cs) {
		r.fail("resample-mutates", "resampling changed the source candles")
	}
	ctx := func() string { return fmt.Sprintf("source %s, interval %d", timesText(cs), dst) }
	r.state(13, src, dst, bucketLen(len(cs)), b2i(err == nil), r.nfaults)
	r.eval(hashCandles(out))
	r.checkMinInterval(arg)
	if len(cs) == 0 {
		if err == nil {
			r.fail("empty", "no candles resample to %d without an error", len(out))
		}
		return
	}
	if len(cs) == 1 {
		if err == nil && (len(out) != 1 || !sameCandle(out[0], cs[0])) {
			r.fail("single", "a single candle resamples to %d candles", len(out))
		}
		return
	}
	delta := (cs[1].Time - cs[0].Time) / 60
	possible := dst >= 1 && delta >= 1 && int64(dst)%delta == 0 && firstAligned(cs, dst) >= 0
	if dst >= 1 && dst%src != 0 {
		// even the true spacing does not divide the interval
		if err == nil {
			r.fail("impossible", "candles of %d minutes were resampled to %d minutes; %s", src, dst, ctx())
		}
		return
	}
	if dst < 1 && err == nil {
		r.fail("impossible", "candles were resampled to %d minutes", dst)
	}
	if err != nil {
		if possible && delta == int64(src) {
			r.fail("resample-error", "resampling failed: %v; %s", err, ctx())
		}
		return
	}
	if firstAligned(cs, dst) < 0 {
		r.fail("unaligned", "no candle is aligned but %d were returned; %s", len(out), ctx())
	}
	r.checkResampled(cs, dst, out, ctx)
}

func (r *Run) checkResampled(cs []market.Candle, dst int, out []market.Candle, ctx func() string) {
	want := resampleRef(cs, dst)
	if len(out) != len(want) {
		r.fail("buckets", "%d candles returned, %d intervals have candles; %s; returned %s", len(out), len(want), ctx(), timesText(out))
	}
	// a candle may carry the start of its interval or of its first source
	firsts := map[int64]int64{}
	pivot := cs[firstAligned(cs, dst)].Time
	for _, c := range cs[firstAligned(cs, dst):] {
		b := pivot + (c.Time-pivot)/60/int64(dst)*60*int64(dst)
		if _, ok := firsts[b]; !ok {
			firsts[b] = c.Time
		}
	}
	for i := range want {
		w, g := want[i], out[i]
		if g.Time != w.Time && g.Time != firsts[w.Time] {
			r.fail("bucket-time", "interval %d starts at %d, its candle says %d; %s", i, w.Time, g.Time, ctx())
		}
		if g.Open != w.Open || g.High != w.High || g.Low != w.Low || g.Close != w.Close || !volumeNear(w.Volume, g.Volume) {
			r.fail("bucket-value", "interval %d is %s, not %s; %s", i, candleText(g), candleText(w), ctx())
		}
	}
}

// oddResample only asks for survival: spacings below a minute, disorder.
func (r *Run) oddResample() {
	s := r.src
	n := s.N(20)
	cs := r.walk(n, 1619827200+int64(s.N(5000)), int64(s.N(130)))
	for i := range cs {
		if s.Chance(1, 6) {
			cs[i].Time = cs[s.N(len(cs))].Time
			r.fault("disorder")
		}
	}
	dst := []int{1, 5, 60, 0, -1, 2, 1 << 40}[s.N(7)]
	out, _ := r.resample(cs, dst)
	r.eval(uint64(len(out)))
	r.checkMinInterval(cs)
}

func (r *Run) checkMinInterval(cs []market.Candle) {
	if len(cs) < 2 {
		return
	}
	want := int64(math.MaxInt64)
	for i := 1; i < len(cs); i++ {
		d := cs[i].Time - cs[i-1].Time
		if d < 0 {
			d = -d
		}
		if d < want {
			want = d
		}
	}
	got := 0
	r.lib("GetMinInterval", func() { got = market.GetMinInterval(cs) })
	if int64(got) != want/60 {
		r.fail("min-interval", "the smallest spacing is reported as %d minutes, it is %d seconds; %s", got, want, timesText(cs))
	}
	r.eval(uint64(got))
}

func timesText(cs []market.Candle) string {
	var out []byte
	for i, c := range cs {
		if i == 40 {
			out = append(out, "..."...)
			break
		}
		if i > 0 {
			out = append(out, ' ')
		}
		out = fmt.Appendf(out, "%d", c.Time)
	}
	return "[" + string(out) + "]"
}

// figures are all values a node publishes about a history.
type figures struct {
	ma, ema, smma map[int][]float64
	rsi           map[int][]float32
	fractals      []indicators.WilliamFractal
	resampled     map[int][]market.Candle
}

func (r *Run) publishFigures(cs []market.Candle, periods, intervals []int) *figures {
	f := &figures{ma: map[int][]float64{}, ema: map[int][]float64{}, smma: map[int][]float64{}, rsi: map[int][]float32{}, resampled: map[int][]market.Candle{}}
	for _, p := range periods {
		r.lib("MovingAverage", func() {
			if v, err := indicators.MovingAverage(cs, p); err == nil {
				f.ma[p] = v
			}
		})
		r.lib("ExponentialMovingAverage", func() {
			if v, err := indicators.ExponentialMovingAverage(cs, p); err == nil {
				f.ema[p] = v
			}
		})
		r.lib("SmoothedMovingAverage", func() {
			if v, err := indicators.SmoothedMovingAverage(cs, p); err == nil {
				f.smma[p] = v
			}
		})
		if p < 2 {
			continue
		}
		r.lib("RSI", func() {
			if v, err := indicators.RSI(cs, p); err == nil {
				f.rsi[p] = v
			}
		})
	}
	r.lib("WilliamFractals", func() { f.fractals = indicators.WilliamFractals(cs) })
	if len(cs) >= 2 {
		for _, m := range intervals {
			if v, err := r.resample(cs, m); err == nil {
				f.resampled[m] = v
			}
		}
	}
	return f
}

func (f *figures) hash() uint64 {
	h := uint64(len(f.fractals))
	for _, x := range f.fractals {
		h = hash2(h, uint64(x.Time))
	}
	return h
}

// checkStable compares what was published with what is published now.
func (r *Run) checkStable(old, now *figures, periods, intervals []int, scale float64, ctx func() string) {
	series := func(name string, p int, a, b []float64) {
		if len(b) < len(a) {
			r.fail("repaint-"+name, "%s(%d) had %d values and now has %d; %s", name, p, len(a), len(b), ctx())
		}
		for i := range a {
			if !near(a[i], b[i], scale) {
				r.fail("repaint-"+name, "%s(%d) value %d changed from %v to %v; %s", name, p, i, a[i], b[i], ctx())
			}
		}
	}
	for _, p := range periods {
		series("MovingAverage", p, old.ma[p], now.ma[p])
		series("ExponentialMovingAverage", p, old.ema[p], now.ema[p])
		series("SmoothedMovingAverage", p, old.smma[p], now.smma[p])
		a, b := old.rsi[p], now.rsi[p]
		if len(b) < len(a) {
			r.fail("repaint-RSI", "RSI(%d) had %d values and now has %d; %s", p, len(a), len(b), ctx())
		}
		for i := range a {
			x, y := float64(a[i]), float64(b[i])
			if !(math.Abs(x-y) <= 1e-4 || x == y || (math.IsNaN(x) && math.IsNaN(y))) {
				r.fail("repaint-RSI", "RSI(%d) value %d changed from %v to %v; %s", p, i, a[i], b[i], ctx())
			}
		}
	}
	have := map[indicators.WilliamFractal]int{}
	for _, x := range now.fractals {
		have[x]++
	}
	for _, x := range old.fractals {
		if have[x] == 0 {
			r.fail("repaint-fractal", "the %s fractal at %d (%v) is no longer reported; %s", x.Type, x.Time, x.Price, ctx())
		}
		have[x]--
	}
	for _, m := range intervals {
		a, b := old.resampled[m], now.resampled[m]
		if len(a) > len(b) {
			r.fail("repaint-resampled", "there were %d candles of %d minutes, now there are %d; %s", len(a), m, len(b), ctx())
		}
		for i := 0; i+1 < len(a); i++ {
			if a[i].Time != b[i].Time || a[i].Open != b[i].Open || a[i].High != b[i].High || a[i].Low != b[i].Low || a[i].Close != b[i].Close || !volumeNear(a[i].Volume, b[i].Volume) {
				r.fail("repaint-resampled", "closed candle %d of %d minutes changed from %s to %s; %s", i, m, candleText(a[i]), candleText(b[i]), ctx())
			}
		}
	}
}

func maxClose(cs []market.Candle) float64 {
	m := 0.0
	for _, c := range cs {
		m = math.Max(m, math.Abs(c.Close))
	}
	return m
}

func runRepaint(r *Run) {
	s := r.src
	path := diskRoot + "history"
	n := 1 + s.N([]int{12, 40, 90}[s.N(3)])
	if s.Chance(1, 256) {
		n = 1 + s.N(500)
	}
	all := r.walk(n, 1619827200+60*int64(s.N(240)), 60)
	lf := r.swarmLink()
	lf.late = 0
	if s.Chance(1, 2) {
		lf.dup = 0
	}
	var feed []market.Candle
	for _, m := range r.transmit(n, 1e9, lf) {
		c := all[m.item]
		if k := len(feed); k > 0 && c.Time < feed[k-1].Time {
			continue
		}
		feed = append(feed, c)
	}
	periods := []int{1 + s.N(5), 2 + s.N(14), 14}
	if n > 90 {
		periods[0] = 1 + s.N(n)
	}
	intervals := []int{1 + s.N(5), []int{5, 15, 60}[s.N(3)]}
	restarts := s.Rate()
	r.fs.swarmDisk()
	disk := r.fs.f
	var old *figures
	var hist []market.Candle
	at := 0
	for at < len(feed) || old == nil {
		k := 1
		if s.Chance(1, 3) {
			k = 1 + s.N(20)
		}
		for ; k > 0 && at < len(feed); k-- {
			hist = append(hist, feed[at])
			at++
		}
		if restarts > 0 && s.Chance(restarts, 1000) {
			hist = r.restartHistory(path, hist, disk)
		}
		now := r.publishFigures(hist, periods, intervals)
		if old != nil {
			r.checkStable(old, now, periods, intervals, maxClose(hist), func() string {
				return fmt.Sprintf("history of %d candles %s", len(hist), timesText(hist))
			})
		}
		r.state(14, bucketLen(len(hist)), len(now.fractals), len(now.rsi[14]), len(now.resampled[intervals[1]]))
		r.eval(now.hash())
		old = now
	}
}

// restartHistory saves the history, lets the process die, and loads it again.
func (r *Run) restartHistory(path string, hist []market.Candle, disk FSFaults) []market.Candle {
	s := r.src
	r.fault("restart")
	tmp := path + ".tmp"
	for try := 0; ; try++ {
		r.fs.f = disk
		if try > 3 {
			r.fs.heal()
		}
		done := false
		r.process(func() {
			if try < 3 && s.Chance(1, 3) {
				r.fs.crashIn = 1 + s.N(4+len(hist))
			}
			if r.saveCandles(hist, tmp) == nil && r.fs.rename(tmp, path) == nil {
				done = true
			}
		})
		if done {
			break
		}
		if try > 8 {
			r.fail("save-spurious", "saving fails on a healthy disk")
		}
	}
	for try := 0; ; try++ {
		r.fs.f = disk
		if try > 3 {
			r.fs.heal()
		}
		var got []market.Candle
		var err error
		r.process(func() { got, err = r.loadCandles(path) })
		if err == nil {
			if !sameCandles(got, hist) {
				r.fail("reload-differs", "the saved history comes back different: %s", diffCandles(hist, got))
			}
			r.fs.heal()
			return got
		}
		if try > 8 {
			r.fail("load-spurious", "loading fails on a healthy disk: %v", err)
		}
	}
}

type zone struct {
	name string
	loc  *time.Location
}

var hostZones []zone // zones a host can be in
var namedZones []zone
var falseZones = map[string][]string{} // names that resemble a zone's and are none

func loadZones() {
	names := []string{"UTC", "America/New_York", "Asia/Kolkata", "Asia/Kathmandu", "Australia/Lord_Howe", "America/St_Johns", "Pacific/Chatham",
		"Europe/Berlin", "Asia/Tokyo", "Pacific/Apia", "Australia/Adelaide", "Pacific/Marquesas", "Africa/Monrovia", "America/Mexico_City", "Europe/London"}
	for _, n := range names {
		if l, err := time.LoadLocation(n); err == nil {
			namedZones = append(namedZones, zone{n, l})
			hostZones = append(hostZones, zone{n, l})
			last := n[strings.LastIndex(n, "/")+1:]
			for _, f := range []string{strings.ToLower(n), strings.ToUpper(n), n + " ", n + "/", " " + n, n[:len(n)-1], last, "Asia/" + last, "Europe/" + last, "_" + last, strings.ReplaceAll(n, "/", "")} {
				if _, err := time.LoadLocation(f); err != nil {
					falseZones[n] = append(falseZones[n], f)
				}
			}
		}
	}
	for _, o := range []int{19800, -12600, 45900, 3600, -3540, 34200, 20700, 17, -44*60 - 30} {
		hostZones = append(hostZones, zone{fmt.Sprintf("fixed%+d", o), time.FixedZone("FX", o)})
	}
}

// civilDays counts the days from 1970-01-01 to a date.
func civilDays(y, m, d int64) int64 {
	if m <= 2 {
		y--
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func sameWall(a, b time.Time) bool {
	y1, m1, d1 := a.Date()
	y2, m2, d2 := b.Date()
	h1, n1, s1 := a.Clock()
	h2, n2, s2 := b.Clock()
	_, o1 := a.Zone()
	_, o2 := b.Zone()
	return a.Equal(b) && y1 == y2 && m1 == m2 && d1 == d2 && h1 == h2 && n1 == n2 && s1 == s2 && o1 == o2 && a.Nanosecond() == b.Nanosecond()
}

func (r *Run) setZone() zone {
	z := hostZones[r.src.N(len(hostZones))]
	r.host(z.loc)
	if z.name != "UTC" {
		r.fault("host-zone")
	}
	r.logf("host zone %s", z.name)
	return z
}

// host goes on with a new process on a host in that zone.
func (r *Run) host(zone *time.Location) {
	time.Local = zone
	r.lib("package initialisation", zzverifsim.Reset)
}
