package main

import (
	"fmt"
	"sort"

	"github.com/vanclief/finmod/market"
)

func init() {
	scenarios["C28"] = &scenario{
		run:      runTables,
		rule:     "1 to 4 tasks look up assets and pairs, build and change pairs of their own and ask for their symbols, preempted at single statements, over several lives of the process; non-trivial: at least one preemption or fault; distinct: signature over schedule, lookups and answers",
		quick:    240000,
		thorough: 3000000,
		assume:   []string{"nobody but the library writes the tables"},
	}
	for k, p := range market.PairMappings {
		tableKeys = append(tableKeys, k)
		tableWas[k] = p
	}
	sort.Strings(tableKeys)
}

// the table of pairs as the library brings it
var (
	tableKeys []string
	tableWas  = map[string]market.Pair{}
)

var assetSymbols = []string{
	"BTC", "ETH", "USD", "AAPL", "XMR", "LTC", "EUR", "EWT", "EWTB", "ETC", "USDT", "USDC", "DAI", "AAVE", "ZED", "BCH", "MATIC", "DOT", "COMP", "UNI",
	"", "btc", "Btc", " BTC", "BTC ", "BT", "BTCC", "XYZ", "usd", "aapl", "USDTT", "E", "日本", "BTC/USD",
}

var separators = []string{"", "/", "-", "_", " ", "::", "é"}

// question is one lookup.
type question struct {
	name string
	ask  func() answer
}

// drawQuestion makes a question about the tables.
func (r *Run) drawQuestion() *question {
	s := r.src
	sym := assetSymbols[s.N(len(assetSymbols))]
	if s.Chance(1, 8) && len(tableKeys) > 0 {
		sym = tableWas[tableKeys[s.N(len(tableKeys))]].Base.Symbol
	}
	asset := func(name string, f func(string) (market.Asset, error)) *question {
		return &question{name: fmt.Sprintf("%s(%q)", name, sym), ask: func() answer {
			a, err := f(sym)
			if err != nil {
				return answer{nil, true}
			}
			if a.Symbol != sym || a.Name == "" {
				r.fail("asset-differs", "%s(%q) gives %+v", name, sym, a)
			}
			out := answer{a, false}
			a.Name, a.Symbol, a.AltSymbol = "changed", "changed", "changed" // it is the caller's
			return out
		}}
	}
	switch s.N(6) {
	case 0, 1:
		return asset("NewCryptoAsset", market.NewCryptoAsset)
	case 2:
		return asset("NewForexAsset", market.NewForexAsset)
	case 3:
		return asset("NewStockAsset", market.NewStockAsset)
	case 4:
		name := []string{"Bitcoin", "", "x"}[s.N(3)]
		return &question{name: fmt.Sprintf("NewAsset(%q, %q)", sym, name), ask: func() answer {
			a, err := market.NewAsset(sym, name)
			if (err != nil) != (sym == "" || name == "") {
				r.fail("asset-accepted", "NewAsset(%q, %q) gives %+v, %v", sym, name, a, err)
			}
			if err != nil {
				return answer{nil, true}
			}
			if (a != market.Asset{Symbol: sym, Name: name}) {
				r.fail("asset-differs", "NewAsset(%q, %q) gives %+v", sym, name, a)
			}
			return answer{a, false}
		}}
	}
	key, sep := sym, separators[s.N(len(separators))]
	if len(tableKeys) > 0 && !s.Chance(1, 8) {
		key = tableKeys[s.N(len(tableKeys))]
	}
	return &question{name: fmt.Sprintf("PairMappings[%q]", key), ask: func() answer {
		p, ok := market.PairMappings[key]
		if was, has := tableWas[key]; ok != has || p != was {
			r.fail("table-changed", "the table says %+v for %q, it said %+v", p, key, was)
		}
		if !ok {
			return answer{nil, true}
		}
		if got, want := p.Symbol(sep), symbolOf(p, sep); got != want {
			r.fail("symbol-differs", "the symbol of %+v with %q is %q", p, sep, got)
		}
		out := answer{p, false}
		p.Base, p.Quote.Symbol = market.Asset{Symbol: "changed"}, "changed"
		return out
	}}
}

// symbolOf is the symbol of a pair, computed independently.
func symbolOf(p market.Pair, sep string) string {
	if p.Quote.Symbol == "" {
		return p.Base.Symbol
	}
	return p.Base.Symbol + sep + p.Quote.Symbol
}

func sameTable() string {
	if len(market.PairMappings) != len(tableWas) {
		return fmt.Sprintf("%d entries, not %d", len(market.PairMappings), len(tableWas))
	}
	for _, k := range tableKeys {
		if p, ok := market.PairMappings[k]; !ok || p != tableWas[k] {
			return fmt.Sprintf("%q is %+v, not %+v", k, p, tableWas[k])
		}
	}
	return ""
}

// desk is a pair that one task holds and goes on changing.
type desk struct {
	pair, was market.Pair
}

func runTables(r *Run) {
	s := r.src
	defer func() { // the next run starts with the table as it was brought
		if sameTable() != "" {
			t := make(map[string]market.Pair, len(tableWas))
			for k, p := range tableWas {
				t[k] = p
			}
			market.PairMappings = t
		}
	}()
	for life := s.N(2); life >= 0; life-- {
		var asked []*question
		var got []answer
		r.process(func() { asked, got = r.deskWork(1 + s.N(4)) })
		r.process(func() { // one that has not looked anything up yet
			for i, q := range asked {
				if d := sameAnswer(got[i], r.askTables(q)); d != "" {
					r.fail("lookup-differs", "%s differs from what a new process answers: %s", q.name, d)
				}
			}
		})
	}
	if s.Chance(1, 16) {
		if d := sameTable(); d != "" {
			r.fail("table-changed", "the table of pairs has changed: %s", d)
		}
	}
}

func (r *Run) askTables(q *question) (a answer) {
	r.lib(q.name, func() { a = q.ask() })
	if r.tracing {
		r.logf("%s -> %+v", q.name, a)
	}
	return a
}

// deskWork lets the tasks of one life work; it returns what was asked and the answers.
func (r *Run) deskWork(tasks int) (asked []*question, got []answer) {
	s := r.src
	var common []*question // asked by everybody
	for k := 1 + s.N(4); k > 0; k-- {
		common = append(common, r.drawQuestion())
	}
	work := make([][]*question, tasks)
	for i := range work {
		for k := 1 + s.N(6); k > 0; k-- {
			q := common[s.N(len(common))]
			if s.Chance(1, 2) {
				q = r.drawQuestion()
			}
			work[i] = append(work[i], q)
		}
	}
	shared := r.pairOfAssets()
	sharedWas := shared
	fns := make([]func(), tasks)
	desks := make([]*desk, tasks)
	for i := range desks {
		p := r.pairOfAssets()
		if s.Chance(1, 2) {
			p = sharedWas
		}
		desks[i] = &desk{p, p}
	}
	for i := range fns {
		i := i
		fns[i] = func() {
			d := desks[i]
			for k, q := range work[i] {
				a := r.askTables(q)
				asked, got = append(asked, q), append(got, a)
				for _, o := range desks {
					if o.pair != o.was {
						r.fail("pair-changed", "a pair that was %+v is %+v", o.was, o.pair)
					}
				}
				sep := separators[s.N(len(separators))]
				p := &d.pair
				if s.Chance(1, 3) {
					p = &shared
				}
				var sym, text string
				r.lib("Pair.Symbol", func() { sym = p.Symbol(sep) })
				if want := symbolOf(*p, sep); sym != want {
					r.fail("symbol-differs", "the symbol of %+v with %q is %q, not %q", *p, sep, sym, want)
				}
				if s.Chance(1, 4) {
					r.lib("Pair.String", func() { text = p.String() })
				}
				if shared != sharedWas {
					r.fail("pair-changed", "a shared pair that was %+v is %+v", sharedWas, shared)
				}
				if s.Chance(1, 3) { // the task goes over to another pair
					n := r.pairOfAssets()
					switch s.N(3) {
					case 0:
						n.Base = d.pair.Base
					case 1:
						n.Quote = d.pair.Quote
					}
					d.pair, d.was = n, n
				}
				r.state(33, tasks, i, k, b2i(a.err), len(sep))
				r.eval(hashStr(hashStr(uint64(i), q.name), sym+text))
			}
		}
	}
	r.parallel(fns...)
	if d := sameTableAt(r); d != "" {
		r.fail("table-changed", "the table of pairs has changed: %s", d)
	}
	return asked, got
}

// sameTableAt looks at some entries of the table.
func sameTableAt(r *Run) string {
	if len(market.PairMappings) != len(tableWas) {
		return fmt.Sprintf("%d entries, not %d", len(market.PairMappings), len(tableWas))
	}
	for k := 8; k > 0 && len(tableKeys) > 0; k-- {
		key := tableKeys[r.src.N(len(tableKeys))]
		if market.PairMappings[key] != tableWas[key] {
			return fmt.Sprintf("%q is %+v, not %+v", key, market.PairMappings[key], tableWas[key])
		}
	}
	return ""
}

// pairOfAssets makes a pair as a task would.
func (r *Run) pairOfAssets() (p market.Pair) {
	s := r.src
	asset := func() market.Asset {
		sym := assetSymbols[s.N(len(assetSymbols))]
		return market.Asset{Symbol: sym, Name: "n" + sym, AltSymbol: []string{"", "alt"}[s.N(2)]}
	}
	base, quote := asset(), asset()
	if s.Chance(1, 6) {
		quote = market.Asset{}
	}
	r.lib("NewPair", func() { p = market.NewPair(base, quote) })
	if (p != market.Pair{Base: base, Quote: quote}) {
		r.fail("pair-differs", "NewPair(%+v, %+v) gives %+v", base, quote, p)
	}
	return p
}
