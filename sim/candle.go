package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/vanclief/finmod/market"
)

func init() {
	scenarios["C07"] = &scenario{
		run:      runSave,
		rule:     "rounds of saving over older files on a failing disk, with crashes, by one task or by several at once with a file each, each acknowledged save read back by a fresh process; non-trivial: at least one fault or crash; distinct: signature over faults, outcomes and data",
		quick:    180000,
		thorough: 2000000,
		assume:   []string{"values are finite", "a disk that reported success for write and close keeps the data"},
		real:     []string{"os.File, bufio and fmt of the standard library"},
		stub:     []string{"the system calls of the disk (in-memory disk with injected faults)"},
	}
	scenarios["C08"] = &scenario{
		run:      runLoad,
		rule:     "files that are whole, cut off by a crash in the middle of a save, or structurally damaged, read from a failing disk by one task or by several at once; non-trivial: at least one fault, crash or damage; distinct: signature over faults, damage and outcomes",
		quick:    240000,
		thorough: 3000000,
		assume:   []string{"damage that leaves a well-formed record of other values cannot be noticed"},
		real:     []string{"os.File, bufio and fmt of the standard library"},
		stub:     []string{"the system calls of the disk (in-memory disk with injected faults)"},
	}
	scenarios["C19"] = &scenario{
		run:      runHandles,
		rule:     "long sequences of saves and loads of good, missing and damaged files on a failing disk of a host with few handles, by one task or by several at once; non-trivial: at least one fault; distinct: signature over faults and outcomes",
		quick:    420000,
		thorough: 5000000,
		real:     []string{"os.File, bufio and fmt of the standard library"},
		stub:     []string{"the system calls of the disk and the handle table (in-memory disk with injected faults)"},
	}
}

// finite draws any finite number; 0 is the simplest.
func (r *Run) finite() float64 {
	s := r.src
	switch s.N(8) {
	case 0:
		return float64(s.N(100))
	case 1:
		return float64(s.N(1<<24)) / 100
	case 2:
		return float64(s.N(1<<30)) * 1e-8
	case 3:
		return -float64(s.N(1<<20)) / 1000
	case 4:
		return math.Copysign(0, -1)
	case 5:
		sp := []float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 1e-7, 1e20, 123456789012345680, 0.1 + 0.2, 1 << 53, 2.2250738585072014e-308}
		return sp[s.N(len(sp))]
	}
	for {
		f := math.Float64frombits(s.U64())
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
		return 1.5
	}
}

func (r *Run) anyTime() int64 {
	s := r.src
	switch s.N(6) {
	case 0, 1, 2, 3:
		return 1619827200 + 60*int64(s.N(100000))
	case 4:
		sp := []int64{0, -1, math.MaxInt64, math.MinInt64, 1 << 31, 1<<53 + 1}
		return sp[s.N(len(sp))]
	}
	return int64(s.U64())
}

// anyCandles draws a list of candles of arbitrary content.
func (r *Run) anyCandles(max int) []market.Candle {
	s := r.src
	n := s.N(max + 1)
	out := make([]market.Candle, n)
	plain := s.Chance(1, 2)
	repeats := s.Chance(1, 3)
	for i := range out {
		if repeats && i > 0 && s.Chance(1, 4) {
			out[i] = out[i-1-s.N(i)] // all of an earlier candle, or all but one field
			v := s.N(6)
			if v > 0 {
				*[]*float64{&out[i].Open, &out[i].High, &out[i].Low, &out[i].Close, &out[i].Volume}[v-1] = r.finite()
			}
			continue
		}
		if plain {
			p := float64(100000+s.N(1000)) / 100
			out[i] = market.Candle{Time: 1619827200 + 60*int64(i), Open: p, High: p + 1, Low: p - 1, Close: p + 0.25, Volume: float64(s.N(1<<20)) / 1e5}
			continue
		}
		if s.Chance(1, 40) {
			continue // all zeros
		}
		out[i] = market.Candle{Time: r.anyTime(), Open: r.finite(), High: r.finite(), Low: r.finite(), Close: r.finite(), Volume: r.finite()}
	}
	return out
}

func (r *Run) saveCandles(cs []market.Candle, path string) (err error) {
	arg := append(make([]market.Candle, 0, len(cs)), cs...)
	r.lib("SaveCandlesToFile", func() { err = market.SaveCandlesToFile(&arg, path) })
	r.logf("save %d candles to %s -> %s", len(cs), path, errText(err))
	if !sameCandles(arg, cs) {
		r.fail("save-mutates", "saving changed the caller's candles: %s", diffCandles(cs, arg))
	}
	return err
}

func (r *Run) loadCandles(path string) (cs []market.Candle, err error) {
	r.lib("LoadCandlesFromFile", func() { cs, err = market.LoadCandlesFromFile(path) })
	r.logf("load %s -> %d candles, %s", path, len(cs), errText(err))
	return cs, err
}

// encode writes the candles in the format of the data files.
func encode(cs []market.Candle) []byte {
	var b []byte
	num := func(f float64) {
		b = append(b, ' ')
		b = strconv.AppendFloat(b, f, 'g', -1, 64)
	}
	for _, c := range cs {
		b = append(b, '{')
		b = strconv.AppendInt(b, c.Time, 10)
		num(c.Open)
		num(c.High)
		num(c.Low)
		num(c.Close)
		num(c.Volume)
		b = append(b, "}\n"...)
	}
	return b
}

// decode is the reference reading of a data file; ok is false when a line
// is not a whole record. The newline of the last record may be missing.
func decode(b []byte) (cs []market.Candle, ok bool) {
	text := string(b)
	if text == "" {
		return nil, true
	}
	text = strings.TrimSuffix(text, "\n")
	for _, line := range strings.Split(text, "\n") {
		if len(line) < 2 || line[0] != '{' || line[len(line)-1] != '}' {
			return nil, false
		}
		f := strings.Split(line[1:len(line)-1], " ")
		if len(f) != 6 {
			return nil, false
		}
		var c market.Candle
		var err error
		if c.Time, err = strconv.ParseInt(f[0], 10, 64); err != nil {
			return nil, false
		}
		for i, p := range []*float64{&c.Open, &c.High, &c.Low, &c.Close, &c.Volume} {
			if *p, err = strconv.ParseFloat(f[i+1], 64); err != nil {
				return nil, false
			}
		}
		cs = append(cs, c)
	}
	return cs, true
}

func (r *Run) listMax() int {
	s := r.src
	switch s.N(12) {
	case 0, 1, 2, 3, 4, 5:
		return 6
	case 6, 7, 8, 9, 10:
		return 40
	}
	return 1200
}

func runSave(r *Run) {
	s := r.src
	fs := r.fs
	paths := []string{diskRoot + "a", diskRoot + "b", diskRoot + "c"}
	max := r.listMax()
	if s.Chance(1, 2) { // an older file is there
		var old []byte
		switch s.N(3) {
		case 0:
			old = encode(r.anyCandles(max))
		case 1:
			old = bytes.Repeat([]byte("x"), s.N(400))
		case 2:
			old = encode(r.anyCandles(max))
			old = old[:s.N(len(old)+1)]
		}
		fs.replace(paths[0], old)
	}
	acked := map[string][]market.Candle{}
	known := map[string]bool{}
	fs.swarmDisk()
	bad := fs.f
	crashes := s.Rate()
	rounds := 1 + s.N(5)
	save := func(path string, cs []market.Candle) {
		delete(acked, path)
		known[path] = false
		hard := fs.hard
		err := r.saveCandles(cs, path)
		if err == nil {
			acked[path], known[path] = cs, true
		} else if fs.hard == hard {
			r.fail("save-spurious", "saving %d candles failed although the disk lost nothing: %v", len(cs), err)
		}
		r.state(9, bucketLen(len(cs)), b2i(err == nil), fs.hard-hard, b2i(fs.f == FSFaults{}))
		r.eval(uint64(b2i(err == nil)))
	}
	readOwn := func(own string) {
		hard := fs.hard
		got, err := r.loadCandles(own)
		r.state(14, b2i(known[own]), b2i(err == nil), fs.hard-hard)
		r.eval(uint64(b2i(err == nil)))
		switch {
		case !known[own]:
		case err != nil && fs.hard == hard:
			r.fail("acked-unreadable", "an acknowledged save of %d candles cannot be loaded by the process that made it: %v", len(acked[own]), err)
		case err == nil && !sameCandles(got, acked[own]):
			r.fail("acked-differs", "an acknowledged save comes back different in the process that made it: %s", diffCandles(acked[own], got))
		}
	}
	crashSoon := func(n int) {
		if crashes > 0 && s.Chance(crashes, 1000) {
			if s.Chance(1, 2) {
				fs.crashIn = 1 + s.N(4+2*n)
			} else {
				r.crashIn = 1 + s.N(12+6*n)
			}
		}
	}
	for i := 0; i < rounds; i++ {
		path := paths[s.N(2)]
		cs := r.anyCandles(max)
		fs.f = bad
		if s.Chance(1, 4) {
			fs.heal()
		}
		crashed := r.process(func() {
			if s.Chance(1, 8) { // several tasks, each with a file of its own
				var fns []func()
				total := 0
				for k, n := 0, 2+s.N(2); k < n; k++ {
					path, saves := paths[k], [][]market.Candle{cs}
					if k > 0 {
						saves[0] = r.anyCandles(max)
					}
					for s.Chance(1, 3) && len(saves) < 4 {
						saves = append(saves, r.nextCandles(saves[len(saves)-1], max))
					}
					for _, cs := range saves {
						total += len(cs)
					}
					fns = append(fns, func() {
						for _, cs := range saves {
							save(path, cs)
							if s.Chance(1, 3) {
								readOwn(path)
							}
						}
					})
				}
				crashSoon(total)
				r.parallel(fns...)
				r.crashIn, fs.crashIn = 0, 0
				return
			}
			for k, saves := 0, 1+s.N(6)/3+s.N(8)/7*s.N(6); k < saves; k++ {
				if k > 0 {
					path, cs = paths[s.N(2)], r.nextCandles(cs, max)
				}
				crashSoon(len(cs))
				save(path, cs)
				r.crashIn, fs.crashIn = 0, 0
				if s.Chance(1, 3) { // the process reads its own file
					readOwn(paths[s.N(2)])
				}
			}
		})
		if crashed {
			r.state(10, bucketLen(len(cs)), fs.ops)
		}
		// a fresh process reads what was acknowledged
		fs.heal()
		r.process(func() {
			for _, path := range paths {
				if !known[path] {
					continue
				}
				got, err := r.loadCandles(path)
				if err != nil {
					r.fail("acked-unreadable", "an acknowledged save of %d candles cannot be loaded: %v", len(acked[path]), err)
				}
				if !sameCandles(got, acked[path]) {
					r.fail("acked-differs", "an acknowledged save comes back different: %s", diffCandles(acked[path], got))
				}
				r.eval(hashCandles(got))
			}
		})
	}
}

// nextCandles is what a process saves after it has saved cs: more candles,
// fewer, the same with a correction, or others.
func (r *Run) nextCandles(cs []market.Candle, max int) []market.Candle {
	s := r.src
	next := append([]market.Candle(nil), cs...)
	switch s.N(5) {
	case 0:
		return r.anyCandles(max)
	case 1:
		return append(next, r.anyCandles(1+max/8)...)
	case 2:
		return next[:s.N(len(next)+1)]
	case 3:
		if one := r.anyCandles(1); len(next) > 0 && len(one) > 0 {
			next[s.N(len(next))] = one[0]
		}
	}
	return next
}

func bucketLen(n int) int {
	k := 0
	for n > 0 {
		k++
		n >>= 1
	}
	return k
}

// damage breaks the shape of one record of a file.
func (r *Run) damage(b []byte) ([]byte, bool) {
	s := r.src
	lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	if len(b) == 0 {
		return b, false
	}
	i := s.N(len(lines))
	line := lines[i]
	fields := strings.Split(line[1:len(line)-1], " ")
	k := s.N(6)
	kind := s.N(12)
	names := []string{"lost-open-brace", "lost-close-brace", "lost-field", "extra-field", "non-numeric", "blank-line", "overflow", "long-line", "two-in-one", "cut-in-record", "zero-bytes", "empty-field"}
	switch kind {
	case 0:
		line = line[1:]
	case 1:
		line = line[:len(line)-1]
	case 2:
		line = "{" + strings.Join(append(append([]string{}, fields[:k]...), fields[k+1:]...), " ") + "}"
	case 3:
		line = "{" + strings.Join(append(append([]string{}, fields[:k]...), append([]string{"7"}, fields[k:]...)...), " ") + "}"
	case 4:
		fields[k] = []string{"abc", "1.2.3", "--1", "1e", "{", "12x", "\xff\xfe"}[s.N(7)]
		line = "{" + strings.Join(fields, " ") + "}"
	case 5:
		if i == len(lines)-1 {
			i = 0
			line = lines[0]
		}
		if i == len(lines)-1 {
			return b, false
		}
		line = line + "\n"
	case 6:
		if k == 0 {
			fields[0] = []string{"9223372036854775808", "99999999999999999999", "-9223372036854775809"}[s.N(3)]
		} else {
			fields[k] = []string{"1e999", "-2e308"}[s.N(2)]
		}
		line = "{" + strings.Join(fields, " ") + "}"
	case 7:
		line = strings.Repeat("z", 70000)
	case 8:
		line = line + line
	case 9:
		if len(line) < 3 {
			return b, false
		}
		line = line[:1+s.N(len(line)-2)]
	case 10:
		line = strings.Repeat("\x00", len(line))
	case 11:
		fields[k] = ""
		line = "{" + strings.Join(fields, " ") + "}"
	}
	lines[i] = line
	out := []byte(strings.Join(lines, "\n") + "\n")
	if _, ok := decode(out); ok {
		return b, false
	}
	r.fault("damage-" + names[kind])
	return out, true
}

// loadTogether has several tasks of a process load files at once, their own
// or the same.
func (r *Run) loadTogether() {
	s := r.src
	fs := r.fs
	type file struct {
		path  string
		data  []byte
		want  []market.Candle
		whole bool
	}
	max := r.listMax()
	files := make([]file, 1+s.N(3))
	for i := range files {
		f := &files[i]
		f.path = fmt.Sprintf("%sl%d", diskRoot, i)
		f.data = encode(r.anyCandles(max))
		switch s.N(6) {
		case 4:
			f.data, _ = r.damage(f.data)
		case 5:
			if n := s.N(len(f.data) + 1); n < len(f.data) {
				r.fault("cut-off")
				f.data = f.data[:n]
			}
		}
		f.want, f.whole = decode(f.data)
		fs.replace(f.path, append([]byte(nil), f.data...))
	}
	fs.heal()
	if s.Chance(1, 2) {
		fs.swarmDisk()
		fs.f.capacity = 0
	}
	r.process(func() {
		var fns []func()
		for k, n := 0, 2+s.N(2); k < n; k++ {
			fns = append(fns, func() {
				for j, loads := 0, 1+s.N(3); j < loads; j++ {
					f := files[(k+s.N(len(files)))%len(files)]
					hard := fs.hard
					got, err := r.loadCandles(f.path)
					struck := fs.hard > hard
					r.state(15, len(files), b2i(f.whole), bucketLen(len(f.want)), b2i(err == nil), b2i(struck))
					r.eval(uint64(b2i(err == nil))<<32 | uint64(len(got)))
					switch {
					case err != nil && f.whole && !struck:
						r.fail("load-spurious", "a whole file of %d candles does not load while others are loaded: %v", len(f.want), err)
					case err == nil && !f.whole:
						r.fail("damaged-loaded", "a damaged file loads as %d candles without an error while others are loaded; file: %s", len(got), clip(string(f.data)))
					case err == nil && !sameCandles(got, f.want):
						r.fail("load-differs", "the file loads differently while others are loaded: %s; read faults: %v", diffCandles(f.want, got), struck)
					}
					for k := range got {
						got[k].Close = -1
					}
				}
			})
		}
		r.parallel(fns...)
	})
}

func runLoad(r *Run) {
	s := r.src
	fs := r.fs
	if s.Chance(1, 10) {
		r.loadTogether()
		return
	}
	path := diskRoot + "c"
	cs := r.anyCandles(r.listMax())
	origin := s.N(5)
	switch origin {
	case 0: // whole file
		fs.replace(path, encode(cs))
	case 1: // written by a process that died
		r.process(func() {
			if s.Chance(1, 2) {
				fs.crashIn = 1 + s.N(3+len(cs))
			} else {
				r.crashIn = 1 + s.N(8+4*len(cs))
			}
			r.saveCandles(cs, path)
		})
	case 2: // cut off anywhere
		b := encode(cs)
		if n := s.N(len(b) + 1); n < len(b) {
			r.fault("cut-off")
			b = b[:n]
		}
		fs.replace(path, b)
	case 3:
		b, _ := r.damage(encode(cs))
		fs.replace(path, b)
	case 4: // saved by the library on a healthy disk
		r.process(func() {
			if err := r.saveCandles(cs, path); err != nil {
				r.fail("save-spurious", "saving %d candles on a healthy disk failed: %v", len(cs), err)
			}
		})
	}
	file := fs.files[path]
	var want []market.Candle
	whole := false
	if file != nil {
		want, whole = decode(file.data)
		if origin == 4 && (!whole || !sameCandles(want, cs)) {
			want, whole = cs, true // however it is written, it must come back
		}
	}
	var content []byte
	if file != nil {
		content = append([]byte(nil), file.data...)
	}
	var held, was [][]market.Candle // what this process loaded before
	load := func() {
		fs.heal()
		if s.Chance(3, 4) {
			fs.swarmDisk()
			fs.f.capacity = 0
		}
		hard := fs.hard
		got, err := r.loadCandles(path)
		struck := fs.hard > hard
		r.state(11, origin, b2i(whole), bucketLen(len(want)), b2i(err == nil), b2i(struck))
		r.eval(uint64(b2i(err == nil))<<32 | uint64(len(got)))
		if err == nil {
			if file == nil {
				r.fail("missing-loaded", "a file that does not exist loads as %d candles", len(got))
			}
			if !whole {
				r.fail("damaged-loaded", "a damaged file loads as %d candles without an error; file: %s", len(got), clip(string(content)))
			}
			if !sameCandles(got, want) {
				r.fail("load-differs", "the file loads differently: %s; read faults: %v", diffCandles(want, got), struck)
			}
			for k := range got { // the caller may do with them what it likes
				got[k].Close = -1
			}
			held, was = append(held, got), append(was, append([]market.Candle(nil), got...))
		} else if whole && file != nil && !struck {
			r.fail("load-spurious", "a whole file of %d candles does not load: %v", len(want), err)
		}
		if file != nil && !bytes.Equal(content, file.data) {
			r.fail("load-mutates", "loading changed the file")
		}
		for k := range held {
			if !sameCandles(held[k], was[k]) {
				r.fail("earlier-changed", "loading changed the candles of an earlier load: %s", diffCandles(was[k], held[k]))
			}
		}
	}
	for i, n := 0, 1+s.N(3); i < n; i++ {
		r.process(func() {
			held, was = nil, nil
			for k, m := 0, 1+s.N(6)/5*s.N(4); k < m; k++ {
				if k > 0 && s.Chance(1, 2) { // another process has replaced the file
					cs = r.nextCandles(cs, 1+len(cs)+s.N(4))
					content = encode(cs)
					if s.Chance(1, 3) {
						if s.Chance(1, 2) {
							content, _ = r.damage(content)
						} else {
							content = content[:s.N(len(content)+1)]
						}
					}
					file = r.fs.replace(path, append([]byte(nil), content...))
					want, whole = decode(content)
				}
				load()
			}
		})
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q...", s[:300])
	}
	return fmt.Sprintf("%q", s)
}

func runHandles(r *Run) {
	s := r.src
	fs := r.fs
	paths := []string{diskRoot + "a", diskRoot + "b", diskRoot + "none"}
	fs.swarmDisk()
	bad := fs.f
	calm := s.Rate()
	max := 5
	if s.Chance(1, 32) {
		max = r.listMax()
	}
	// one save or load; alone: no other task has files open
	step := func(i int, alone bool) {
		open, hard := fs.open, fs.hard
		what := s.N(3)
		var err error
		path := paths[s.N(3)]
		switch what {
		case 0:
			if path == paths[2] {
				path = paths[0]
			}
			err = r.saveCandles(r.anyCandles(max), path)
		case 1:
			_, err = r.loadCandles(path)
		case 2: // damaged on the platter meanwhile
			if f := fs.files[path]; f != nil && len(f.data) > 0 {
				if b, ok := r.damage(encode(r.anyCandles(max))); ok {
					f.data = b
					fs.touch(f)
				}
			}
			_, err = r.loadCandles(path)
		}
		if alone && fs.open != open {
			r.fail("leak", "a %s of %s (%s) left %d handles open", []string{"save", "load", "load"}[what], path, errText(err), fs.open-open)
		}
		if what == 0 && err != nil && fs.hard == hard {
			r.fail("save-spurious", "saving failed although the disk lost nothing: %v", err)
		}
		r.state(12, what, b2i(err == nil), fs.hard-hard, fs.limit, i/8, b2i(alone))
		r.eval(uint64(b2i(err == nil)))
	}
	r.process(func() {
		fs.limit = 1 + s.N(4)
		n := r.many(1 + s.N(40))
		for i := 0; i < n; i++ {
			if i%8 == 0 {
				fs.f = bad
				if s.Chance(calm, 1000) {
					fs.heal()
				}
			}
			if s.Chance(1, 32) { // several tasks at once
				open := fs.open
				var fns []func()
				for k, m := 0, 2+s.N(2); k < m; k++ {
					fns = append(fns, func() {
						for j, steps := 0, 1+s.N(3); j < steps; j++ {
							step(i, false)
						}
					})
				}
				r.parallel(fns...)
				if fs.open != open {
					r.fail("leak", "saves and loads by %d tasks left %d handles open", len(fns), fs.open-open)
				}
				continue
			}
			step(i, true)
		}
		fs.limit = 0
	})
}
