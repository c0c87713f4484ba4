package main

import (
	"fmt"
	"time"

	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
	"github.com/vanclief/finmod/utils"
)

// interesting instants: DST changes, leap days, year ends
var instants = []int64{
	1615705200, 1636264800, 1616893200, 1635642000, // New York and Berlin DST 2021
	1709164800, 951782400, 1735689599, 1735689600, 0, -1, 1325239200, // leap days, new year, Apia's skipped day
	-2208988800, 4102444800,
}

func (r *Run) instant() int64 {
	s := r.src
	switch s.N(3) {
	case 0:
		return 1500000000 + int64(s.N(400000000))
	case 1:
		return instants[s.N(len(instants))] + int64(s.Range(0, 14400)) - 7200
	}
	return int64(s.N(1<<31)) - 1<<29
}

// runZones visits hosts in different zones; each is a process of its own.
func runZones(r *Run) {
	s := r.src
	var again []func()
	for h, hosts := 0, 1+s.N(3); h < hosts; h++ {
		z := r.setZone()
		tasks := make([]func(), 1+b2i(s.Chance(1, 6)))
		kinds := 5 - len(tasks) // one task alone moves the clock
		work := func() {
			for i, n := 0, 1+s.N(4); i < n; i++ {
				switch s.N(kinds) {
				case 0:
					again = append(again, r.zoneResample(z))
				case 1:
					r.zoneTick(z)
				case 2:
					r.zoneDate(z)
				case 3:
					r.zoneBook()
				}
			}
		}
		for i := range tasks {
			tasks[i] = work
		}
		r.parallel(tasks...)
	}
	r.host(time.UTC)
	for _, f := range again {
		f()
	}
}

// zoneResample resamples candles on the present host; what it returns does
// the same on a host in UTC.
func (r *Run) zoneResample(z zone) func() {
	s := r.src
	src := []int{1, 5, 15, 30}[s.N(4)]
	dst := src * []int{1, 2, 3, 4, 12, 60, 7}[s.N(7)]
	start := r.instant() / 60 * 60
	cs := r.walk(2+s.N(80), start, int64(src)*60)
	got, err := r.resample(cs, dst)
	if err == nil {
		r.checkResampled(cs, dst, got, func() string {
			return fmt.Sprintf("host zone %s, start %d, spacing %d, interval %d", z.name, start, src, dst)
		})
	}
	r.state(15, dst, b2i(err == nil), int(minuteOf(start)), len(z.name))
	r.eval(hashCandles(got))
	return func() {
		base, err0 := r.resample(cs, dst)
		if (err == nil) != (err0 == nil) {
			r.fail("zone-resample", "resampling to %d minutes: %s in UTC, %s in %s; start %d", dst, errText(err0), errText(err), z.name, start)
		}
		if !sameCandles(base, got) {
			r.fail("zone-resample", "resampling to %d minutes differs between UTC and %s: %s; start %d", dst, z.name, diffCandles(base, got), start)
		}
		r.eval(hashCandles(base))
	}
}

var badZones = []string{"Nowhere/Land", "../etc/passwd", "UTC+25", "\\x", "America/New York", "gmt+1 ", "/etc/localtime"}

func (r *Run) zoneTick(z zone) {
	s := r.src
	t := r.instant()
	switch s.N(12) {
	case 1:
		t = t / 86400 * 86400
	case 2:
		t = int64(s.U64()%315537897600) - 62135596800 // the years 1 to 9999
	case 3:
		t = 0
	}
	tick := &strategy.Tick{Candle: &market.Candle{Time: t, Close: 1, Volume: float64(s.N(3))}, Capital: float64(s.N(5) - 2)}
	var got time.Time
	r.lib("GetLocalTime", func() { got = tick.GetLocalTime() })
	want := time.Unix(t, 0).In(z.loc)
	if !sameWall(got, want) {
		r.fail("local-time", "candle time %d is %v on a host in %s, not %v", t, got, z.name, want)
	}
	r.eval(uint64(t))
	asked := "UTC"
	for i, n := 0, 1+s.N(5); i < n; i++ {
		r.fs.heal()
		if s.Chance(1, 2) {
			r.fs.f.zoneErr = 50 + s.N(900)
		}
		hits := r.acc.Faults["zone-open"] + r.acc.Faults["zone-read"]
		var loc *time.Location
		var name string
		valid := true
		switch s.N(4) {
		case 0, 1:
			if len(namedZones) > 0 {
				nz := namedZones[s.N(len(namedZones))]
				name, loc = nz.name, nz.loc
				asked = name
			} else {
				name, loc = "UTC", time.UTC
			}
		case 2:
			name, loc = []string{"", "UTC"}[s.N(2)], time.UTC
			if s.Chance(1, 3) {
				name, loc = "Local", z.loc
			}
		case 3:
			name, valid = badZones[s.N(len(badZones))], false
			if like := falseZones[asked]; len(like) > 0 && s.Chance(1, 2) {
				name = like[s.N(len(like))]
			}
		}
		var err error
		r.lib("GetLocationTime", func() { got, err = tick.GetLocationTime(name) })
		struck := r.acc.Faults["zone-open"]+r.acc.Faults["zone-read"] > hits
		r.logf("location time of %q -> %v, %s", name, got.Unix(), errText(err))
		r.state(16, len(name), b2i(valid), b2i(struck), b2i(err == nil))
		if !valid {
			if err == nil {
				r.fail("bad-zone", "zone %q, which does not exist, was accepted: %v", name, got)
			}
			r.eval(1)
			continue
		}
		if err != nil {
			if !struck {
				r.fail("zone-spurious", "zone %q was refused: %v", name, err)
			}
			r.eval(2)
			continue
		}
		if !sameWall(got, time.Unix(t, 0).In(loc)) {
			r.fail("location-time", "candle time %d is %v in %q, not %v (host zone %s, zone database fault: %v)", t, got, name, time.Unix(t, 0).In(loc), z.name, struck)
		}
		r.eval(3)
	}
	r.fs.heal()
	if tick.Candle.Time != t {
		r.fail("tick-changed", "asking for the time changed the candle")
	}
}

func (r *Run) zoneDate(z zone) {
	s := r.src
	r.clock = r.instant() * 1e9
	days := []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	y, m := int64(1900+s.N(300)), int64(1+s.N(12))
	leap := y%4 == 0 && (y%100 != 0 || y%400 == 0)
	max := days[m-1]
	if m == 2 && leap {
		max = 29
	}
	d := max - int64(s.N(int(max)))
	if s.Chance(1, 3) && r.lastDate[0] != 0 { // a date close to the one before
		y, m = r.lastDate[0], r.lastDate[1]
		d = r.lastDate[2] + int64(s.Range(0, 4)-2)
		leap = y%4 == 0 && (y%100 != 0 || y%400 == 0)
		max = days[m-1]
		if m == 2 && leap {
			max = 29
		}
		if d < 1 || d > max {
			d = max
		}
	}
	r.lastDate = [3]int64{y, m, d}
	text := fmt.Sprintf("%04d-%02d-%02d", y, m, d)
	valid := true
	if s.Chance(1, 3) {
		valid = false
		bad := []string{
			fmt.Sprintf("%04d-%02d-%02d", y, m, max+1), fmt.Sprintf("%04d-13-%02d", y, d), fmt.Sprintf("%04d-00-%02d", y, d), fmt.Sprintf("%04d-%02d-00", y, m),
			"", "yesterday", fmt.Sprintf("%04d/%02d/%02d", y, m, d), fmt.Sprintf("%d-%d", y, m), text + "T00:00:00Z", " " + text, fmt.Sprintf("%02d-%02d-%04d", d, m, y),
		}
		text = bad[s.N(len(bad))]
	}
	var got time.Time
	var err error
	r.lib("RawDateToRFC3339", func() { got, err = utils.RawDateToRFC3339(text) })
	r.logf("date %q -> %d, %s", text, got.Unix(), errText(err))
	r.state(17, b2i(valid), int(m), int(d), b2i(leap))
	r.eval(uint64(got.Unix()))
	if valid != (err == nil) {
		r.fail("raw-date", "date %q: %s", text, errText(err))
	}
	if valid && got.Unix() != civilDays(y, m, d)*86400 {
		r.fail("raw-date", "date %q is %v (%d) on a host in %s, midnight UTC is %d", text, got, got.Unix(), z.name, civilDays(y, m, d)*86400)
	}
	if _, o := got.Zone(); valid && o != 0 {
		r.fail("raw-date", "date %q is not in UTC but %v", text, got)
	}
}

func (r *Run) zoneBook() {
	r.clock = r.instant()*1e9 + int64(r.src.N(1e9))
	r.fault("clock-jump")
	sec := r.clock / 1e9
	if r.clock < 0 && r.clock%1e9 != 0 {
		sec--
	}
	var asks, bids []market.OrderBookRow
	for i, n := 0, r.src.N(8); i < n; i++ {
		asks = append(asks, market.OrderBookRow{Price: float64(101 + i), Volume: 1})
	}
	for i, n := 0, r.src.N(8); i < n; i++ {
		bids = append(bids, market.OrderBookRow{Price: float64(100 - i), Volume: 1})
	}
	ob := r.newBook(asks, bids, r.src.N(16))
	if ob.Time != sec {
		r.fail("book-time", "a book created at %d carries the time %d", sec, ob.Time)
	}
	r.eval(uint64(sec))
}
