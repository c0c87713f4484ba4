package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/vanclief/ez"
	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
	"github.com/vanclief/state/caches/simplecache"
	"github.com/vanclief/state/interfaces"
	"github.com/vanclief/state/manager"
)

func init() {
	scenarios["C09"] = &scenario{
		run:      runStore,
		rule:     "a process stores, updates and deletes models of all kinds through the state manager on a failing database, crashes, and its successor reads them back, at times by two tasks at once; non-trivial: at least one fault or crash; distinct: signature over faults, operations and outcomes",
		quick:    240000,
		thorough: 3000000,
		assume:   []string{"strings are valid UTF-8, numbers finite, zone offsets whole minutes (what JSON can carry)", "the database keeps a row it has acknowledged"},
		real:     []string{"state manager and its in-memory cache (github.com/vanclief/state v0.4.3), encoding/json"},
		stub:     []string{"the database (rows per table and key as JSON, faults before and after the effect)", "the logger of the state manager (never switched on)"},
	}
}

// simDB is a database that survives the process.
type simDB struct {
	r    *Run
	rows map[string][]byte
	fail struct{ get, before, after int } // thousandths
	hard int
	dieA int // operations until the process dies at one; 0: never
}

func newDB(r *Run) *simDB { return &simDB{r: r, rows: map[string][]byte{}} }

func (db *simDB) rowKey(m interfaces.Model, id string) string {
	sc := m.GetSchema()
	if sc == nil {
		db.r.fail("schema", "a %T names no table", m)
	}
	return sc.Name + "/" + sc.PKey + "=" + id
}

func (db *simDB) die(where string) {
	if db.dieA > 0 {
		db.dieA--
		if db.dieA == 0 {
			db.r.crash(where)
		}
	}
}

func (db *simDB) Get(m interfaces.Model, id interface{}) error {
	db.die("before a database read")
	if db.fail.get > 0 && db.r.src.Chance(db.fail.get, 1000) {
		db.r.fault("db-read")
		db.hard++
		return ez.New("simDB.Get", ez.EINTERNAL, "connection reset", nil)
	}
	row, ok := db.rows[db.rowKey(m, id.(string))]
	if !ok {
		return ez.New("simDB.Get", ez.ENOTFOUND, "no such row", nil)
	}
	fresh := reflect.New(reflect.TypeOf(m).Elem())
	if err := json.Unmarshal(row, fresh.Interface()); err != nil {
		return ez.New("simDB.Get", ez.EINTERNAL, "row cannot be decoded: "+err.Error(), nil)
	}
	return m.Update(fresh.Interface())
}

func (db *simDB) write(m interfaces.Model, del bool) error {
	db.die("before a database write")
	s := db.r.src
	if db.fail.before > 0 && s.Chance(db.fail.before, 1000) {
		db.r.fault("db-write-refused")
		db.hard++
		return ez.New("simDB.write", ez.EINTERNAL, "connection refused", nil)
	}
	b, err := json.Marshal(m)
	if err != nil {
		return ez.New("simDB.write", ez.EINTERNAL, "row cannot be encoded: "+err.Error(), nil)
	}
	if del {
		delete(db.rows, db.rowKey(m, m.GetID()))
	} else {
		db.rows[db.rowKey(m, m.GetID())] = b
	}
	db.die("after a database write")
	if db.fail.after > 0 && s.Chance(db.fail.after, 1000) {
		db.r.fault("db-answer-lost")
		db.hard++
		return ez.New("simDB.write", ez.EINTERNAL, "connection reset", nil)
	}
	return nil
}

func (db *simDB) Insert(m interfaces.Model) error { return db.write(m, false) }
func (db *simDB) Update(m interfaces.Model) error { return db.write(m, false) }
func (db *simDB) Delete(m interfaces.Model) error { return db.write(m, true) }

func (db *simDB) QueryOne(interfaces.Model, string) error { panic("not used") }
func (db *simDB) Query(interface{}, interfaces.Model, []string) error {
	panic("not used")
}
func (db *simDB) RawQuery(interface{}, interfaces.Model, []string) error {
	panic("not used")
}
func (db *simDB) CreateSchema([]interface{}, bool) error { return nil }

var timeType = reflect.TypeOf(time.Time{})

// same compares the exported fields of two records.
func same(a, b interface{}) bool { return diffValue(reflect.ValueOf(a), reflect.ValueOf(b)) == "" }

// diffValue names the first difference of two values, or "".
func diffValue(a, b reflect.Value) string {
	if a.Type() == timeType {
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if !x.Equal(y) {
			return fmt.Sprintf("%v is not %v", x, y)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue
			}
			if d := diffValue(a.Field(i), b.Field(i)); d != "" {
				return a.Type().Field(i).Name + ": " + d
			}
		}
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return "nil on one side"
			}
			return ""
		}
		return diffValue(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%d elements, not %d", a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffValue(a.Index(i), b.Index(i)); d != "" {
				return fmt.Sprintf("[%d] %s", i, d)
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%d entries, not %d", a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() {
				return fmt.Sprintf("entry %v is missing", k)
			}
			if d := diffValue(a.MapIndex(k), v); d != "" {
				return fmt.Sprintf("[%v] %s", k, d)
			}
		}
	case reflect.Float64, reflect.Float32:
		x, y := a.Float(), b.Float()
		if x != y && !(math.IsNaN(x) && math.IsNaN(y)) {
			return fmt.Sprintf("%v is not %v", x, y)
		}
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%v is not %v", a.Interface(), b.Interface())
		}
	}
	return ""
}

// fill gives every exported field of a value some content.
func (r *Run) fill(v reflect.Value) {
	s := r.src
	if v.Type() == timeType {
		t := time.Time{}
		switch s.N(4) {
		case 0:
			t = time.Unix(1600000000+int64(s.N(1<<28)), int64(s.N(1e9))).UTC()
		case 1:
			t = time.Unix(1600000000+int64(s.N(1<<28)), 0).In(time.FixedZone("", 60*(s.N(26*60)-12*60)))
		case 2:
			t = time.Date(1+s.N(9998), time.Month(1+s.N(12)), 1+s.N(28), s.N(24), s.N(60), s.N(60), s.N(1e9), time.UTC)
		}
		v.Set(reflect.ValueOf(t))
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				r.fill(v.Field(i))
			}
		}
	case reflect.Ptr:
		if s.Chance(4, 5) {
			v.Set(reflect.New(v.Type().Elem()))
			r.fill(v.Elem())
		} else {
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.Slice:
		n := s.N(4)
		if s.Chance(1, 200) {
			n = s.N(120)
		}
		v.Set(reflect.Zero(v.Type()))
		if n > 0 || s.Chance(1, 2) {
			v.Set(reflect.MakeSlice(v.Type(), n, n+s.N(3)))
			for i := 0; i < n; i++ {
				r.fill(v.Index(i))
			}
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for i, n := 0, s.N(3); i < n; i++ {
			e := reflect.New(v.Type().Elem()).Elem()
			r.fill(e)
			v.SetMapIndex(reflect.ValueOf(fmt.Sprintf("k%d", i)), e)
		}
	case reflect.String:
		if known := knownTexts[v.Type()]; len(known) > 0 && s.Chance(3, 4) {
			v.SetString(known[s.N(len(known))])
			return
		}
		v.SetString(r.text())
	case reflect.Bool:
		v.SetBool(s.Chance(1, 2))
	case reflect.Float64:
		v.SetFloat(r.finite())
	case reflect.Int64, reflect.Int:
		v.SetInt(r.anyTime())
	}
}

// knownTexts are the texts that mean something to the library.
var knownTexts = map[reflect.Type][]string{
	reflect.TypeOf(market.BuyAction):     {string(market.BuyAction), string(market.SellAction)},
	reflect.TypeOf(market.MarketOrder):   {string(market.MarketOrder), string(market.ClosePosition), string(market.LimitOrder), string(market.TakeProfit), string(market.StopLoss)},
	reflect.TypeOf(market.UnfilledOrder): {string(market.UnfilledOrder), string(market.PartialyFilledOrder), string(market.FulfilledOrder), string(market.CanceledOrder)},
	reflect.TypeOf(market.LongPosition):  {string(market.LongPosition), string(market.ShortPosition)},
	reflect.TypeOf(indicators.FractalUp): {string(indicators.FractalUp), string(indicators.FractalDown)},
}

func (r *Run) text() string {
	s := r.src
	words := []string{"", "a", "buy", "long", "BTC", "x\"y", "<&>", "é ü 日本", "line\nbreak", "tab\t", "\\", "0", "null", "id-7", " ", "emoji 🙂", "  ", "long " + strings.Repeat("z", 40), strings.Repeat("日本 long ", 10+s.N(30))}
	if s.Chance(1, 3) {
		return fmt.Sprintf("s%d", s.N(1000))
	}
	return words[s.N(len(words))]
}

// recordTypes are all exported record types that are not models.
var recordTypes = []reflect.Type{
	reflect.TypeOf(market.Candle{}), reflect.TypeOf(market.OrderBook{}), reflect.TypeOf(market.OrderBookRow{}), reflect.TypeOf(market.OrderBookUpdate{}),
	reflect.TypeOf(market.Ticker{}), reflect.TypeOf(market.BalanceSnapshot{}), reflect.TypeOf(market.AssetsSnapshot{}), reflect.TypeOf(market.Balance{}),
	reflect.TypeOf(market.Asset{}), reflect.TypeOf(market.Pair{}), reflect.TypeOf(market.OrderRequest{}), reflect.TypeOf(market.PositionCloseOrder{}),
	reflect.TypeOf(strategy.CreateOrderAction{}), reflect.TypeOf(strategy.UpdateOrderAction{}), reflect.TypeOf(strategy.CancelOrderAction{}),
	reflect.TypeOf(strategy.UpdatePositionAction{}), reflect.TypeOf(strategy.ClosePositionAction{}), reflect.TypeOf(strategy.Actions{}),
	reflect.TypeOf(strategy.Tick{}), reflect.TypeOf(strategy.AddAnnotationsAction{}), reflect.TypeOf(indicators.WilliamFractal{}),
}

func newModelOf(kind int) interfaces.Model {
	switch kind {
	case 0:
		return &market.Order{}
	case 1:
		return &market.Position{}
	case 2:
		return &market.Trade{}
	}
	return &strategy.Annotation{}
}

var kindNames = []string{"order", "position", "trade", "annotation"}

func setID(m interfaces.Model, id string) {
	reflect.ValueOf(m).Elem().FieldByName("ID").SetString(id)
}

func deepCopy(m interfaces.Model) interfaces.Model {
	v := reflect.New(reflect.TypeOf(m).Elem())
	copyValue(v.Elem(), reflect.ValueOf(m).Elem())
	return v.Interface().(interfaces.Model)
}

func copyValue(dst, src reflect.Value) {
	dst.Set(src)
	if src.Type() == timeType {
		return
	}
	switch src.Kind() {
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			if src.Type().Field(i).PkgPath == "" {
				copyValue(dst.Field(i), src.Field(i))
			}
		}
	case reflect.Ptr:
		if !src.IsNil() {
			dst.Set(reflect.New(src.Type().Elem()))
			copyValue(dst.Elem(), src.Elem())
		}
	case reflect.Slice:
		if !src.IsNil() {
			dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
			for i := 0; i < src.Len(); i++ {
				copyValue(dst.Index(i), src.Index(i))
			}
		}
	}
}

func diffModels(a, b interfaces.Model) string {
	return diffValue(reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem())
}

// oldNames are the names the fields have been stored under so far.
var oldNames = map[string]map[string]string{
	"indicators.WilliamFractal": {"Time": "Time", "Price": "Price", "Type": "Type"},
	"market.Asset":              {"Name": "name", "Symbol": "symbol", "AltSymbol": "alt_symbol"},
	"market.AssetsSnapshot":     {"Time": "time", "Assets": "assets"},
	"market.Balance":            {"Asset": "asset", "Amount": "amount"},
	"market.BalanceSnapshot":    {"Balance": "balance", "Equity": "equity", "Margin": "margin", "FreeMargin": "free_margin"},
	"market.Candle":             {"Time": "time", "Open": "open", "High": "high", "Low": "low", "Close": "close", "Volume": "volume"},
	"market.Order": {"ID": "id", "Action": "action", "Type": "type", "Pair": "pair", "Price": "price", "Volume": "volume", "ExecutedVolume": "executed_volume", "Fee": "fee", "Cost": "cost",
		"Status": "status", "OpenTime": "open_time", "CloseTime": "close_time", "Trades": "trades", "TakeProfit": "take_profit", "StopLoss": "stop_loss", "PositionID": "position_id", "ExecutionID": "execution_id"},
	"market.OrderBook":       {"Time": "time", "Asks": "asks", "Bids": "bids", "MaxDepth": "max_depth"},
	"market.OrderBookRow":    {"Price": "price", "Volume": "volume", "AccumVolume": "accum_volume"},
	"market.OrderBookUpdate": {"Price": "price", "Volume": "volume", "Side": "side"},
	"market.OrderRequest":    {"Action": "Action", "Type": "Type", "Pair": "Pair", "Price": "Price", "TakeProfit": "TakeProfit", "StopLoss": "StopLoss", "Quantity": "Quantity", "Total": "Total"},
	"market.Pair":            {"Base": "base", "Quote": "quote"},
	"market.Position": {"ID": "id", "Type": "type", "Pair": "pair", "Open": "open", "TakeProfit": "take_profit", "StopLoss": "stop_loss", "OpenPrice": "open_price", "ClosePrice": "close_price",
		"Quantity": "quantity", "Profit": "profit", "OpenTime": "open_time", "CloseTime": "close_time", "Trades": "trades", "ExecutionID": "execution_id", "Data": "data"},
	"market.PositionCloseOrder":     {"Price": "price", "OrderID": "order_id"},
	"market.Ticker":                 {"Time": "time", "Ask": "ask", "Bid": "bid", "Last": "last", "Volume": "volume", "VWAP": "vwap"},
	"market.Trade":                  {"ID": "id", "ExecutionTime": "execution_time", "Action": "action", "OrderType": "order_type", "Pair": "pair", "Price": "price", "Quantity": "quantity", "Fee": "fee", "Cost": "cost", "ExecutionID": "execution_id"},
	"strategy.Actions":              {"CreateOrders": "CreateOrders", "UpdateOrders": "UpdateOrders", "CancelOrders": "CancelOrders", "UpdatePositions": "UpdatePositions", "ClosePositions": "ClosePositions", "Annotations": "Annotations"},
	"strategy.AddAnnotationsAction": {"Annotations": "Annotations"},
	"strategy.Annotation":           {"ID": "id", "Time": "time", "CreationTime": "creation_time", "Price": "price", "ExecutionID": "execution_id", "Label": "label", "Tooltip": "tooltip"},
	"strategy.CancelOrderAction":    {"ID": "id", "OrderID": "order_id"},
	"strategy.ClosePositionAction":  {"ID": "id", "PositionID": "position_id"},
	"strategy.CreateOrderAction":    {"ID": "id", "Symbol": "symbol", "ActionType": "action_type", "OrderType": "order_type", "Price": "price", "Volume": "volume", "StopLoss": "stop_loss", "TakeProfit": "take_profit", "Slippage": "slippage"},
	"strategy.Tick":                 {"Candle": "Candle", "PendingActions": "PendingActions", "OpenOrders": "OpenOrders", "OpenPositions": "OpenPositions", "ClosedPositions": "ClosedPositions", "Capital": "Capital"},
	"strategy.UpdateOrderAction":    {"ID": "id", "OrderID": "order_id", "Price": "price", "Volume": "volume", "StopLoss": "stop_loss", "TakeProfit": "take_profit", "Slippage": "slippage"},
	"strategy.UpdatePositionAction": {"ID": "id", "PositionID": "position_id", "ActionType": "action_type", "OrderType": "order_type", "Volume": "volume", "StopLoss": "stop_loss", "TakeProfit": "take_profit", "Slippage": "slippage"},
}

var oldTables = []string{"orders", "positions", "trades", "annotations"}

// oldValue is a value as the release before this one has written it; fields
// which that release did not have are emptied.
func oldValue(v reflect.Value) interface{} {
	if v.Type() == timeType {
		return v.Interface()
	}
	switch v.Kind() {
	case reflect.Struct:
		row := map[string]interface{}{}
		names, known := oldNames[v.Type().String()]
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			if name, ok := names[f.Name]; ok {
				row[name] = oldValue(v.Field(i))
			} else if known {
				v.Field(i).Set(reflect.Zero(f.Type))
			} else {
				row[f.Name] = oldValue(v.Field(i))
			}
		}
		return row
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return oldValue(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		out := make([]interface{}, v.Len())
		for i := range out {
			out[i] = oldValue(v.Index(i))
		}
		return out
	case reflect.Map:
		out := map[string]interface{}{}
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			out[k.String()] = oldValue(e)
			v.SetMapIndex(k, e)
		}
		return out
	}
	return v.Interface()
}

func oldJSON(v reflect.Value) []byte {
	b, err := json.Marshal(oldValue(v))
	if err != nil {
		panic(err)
	}
	return b
}

func runStore(r *Run) {
	s := r.src
	if s.Chance(1, 6) {
		r.records()
		return
	}
	db := newDB(r)
	type slot struct {
		kind int
		id   string
	}
	// versions a read may return; nil: deleted or never there
	allowed := map[slot][]interfaces.Model{}
	var order []slot
	ids := []string{"x1", "", "x2", "x3", "id-é", "0", "6f0c2b7e-9d1a-4c55-8e63-0a1b2c3d4e5f", strings.Repeat("k", 200)}
	rates := [4]int{s.Rate(), s.Rate(), s.Rate(), s.Rate()}

	// rows of the release before this one
	if s.Chance(1, 3) {
		r.fault("upgrade")
		for i, n := 0, 1+s.N(3); i < n; i++ {
			sl := slot{s.N(4), ids[s.N(len(ids))]}
			m := newModelOf(sl.kind)
			r.fill(reflect.ValueOf(m).Elem())
			setID(m, sl.id)
			if _, ok := allowed[sl]; !ok {
				order = append(order, sl)
			}
			db.rows[oldTables[sl.kind]+"/id="+sl.id] = oldJSON(reflect.ValueOf(m).Elem())
			allowed[sl] = []interfaces.Model{m}
		}
	}
	check := func(mg *manager.Manager, when string) {
		for _, sl := range order {
			got := newModelOf(sl.kind)
			if s.Chance(1, 2) {
				r.fill(reflect.ValueOf(got).Elem()) // the receiver was used before
			}
			was := deepCopy(got)
			hard := db.hard
			var err error
			r.lib("Manager.Get", func() { err = mg.Get(got, sl.id) })
			r.logf("%s: get %s %s -> %s", when, kindNames[sl.kind], sl.id, errText(err))
			r.eval(uint64(sl.kind)<<1 | uint64(b2i(err == nil)))
			if err != nil {
				if d := diffModels(was, got); d != "" {
					r.fail("failed-get-changed", "a failed read of a %s changed the receiver: %s", kindNames[sl.kind], d)
				}
				if db.hard > hard {
					continue
				}
				mayMiss := false
				for _, v := range allowed[sl] {
					mayMiss = mayMiss || v == nil
				}
				if !mayMiss {
					r.fail("lost", "%s: the acknowledged %s %s cannot be read: %v", when, kindNames[sl.kind], sl.id, err)
				}
				continue
			}
			var diffs []string
			ok := false
			for _, v := range allowed[sl] {
				if v == nil {
					diffs = append(diffs, "should be gone")
					continue
				}
				d := diffModels(v, got)
				if d == "" {
					ok = true
					break
				}
				diffs = append(diffs, d)
			}
			if !ok {
				r.fail("differs", "%s: %s %s comes back different: %s", when, kindNames[sl.kind], sl.id, strings.Join(diffs, " / "))
			}
		}
	}
	for life, lives := 0, 1+s.N(4); life < lives; life++ {
		r.process(func() {
			var cache interfaces.Cache
			if s.Chance(2, 3) {
				cache = simplecache.New()
			}
			mg, err := manager.New(db, cache)
			if err != nil {
				r.fail("manager", "%v", err)
			}
			if life > 0 {
				check(mg, "after a restart")
			}
			db.fail.get, db.fail.before, db.fail.after = rates[0], rates[1], rates[2]
			if rates[3] > 0 && s.Chance(1, 2) {
				db.dieA = 1 + s.N(12)
			}
			for i, n := 0, r.many(1+s.N(8)); i < n; i++ {
				sl := slot{s.N(4), ids[s.N(len(ids))]}
				if _, known := allowed[sl]; !known {
					allowed[sl] = []interfaces.Model{nil}
					order = append(order, sl)
				}
				r.state(18, sl.kind, len(order), life, b2i(cache != nil), len(allowed[sl]))
				if s.Chance(1, 5) {
					r.wrongKind(sl.kind)
					continue
				}
				m := newModelOf(sl.kind)
				r.fill(reflect.ValueOf(m).Elem())
				setID(m, sl.id)
				var next interfaces.Model = deepCopy(m)
				op := manager.INSERT
				existed := allowed[sl][0] != nil || len(allowed[sl]) > 1
				if existed {
					op = manager.UPDATE
					if s.Chance(1, 4) {
						op, next = manager.DELETE, nil
					}
				}
				old := allowed[sl]
				allowed[sl] = append(append([]interfaces.Model{}, old...), next) // in flight
				r.lib("Manager.Stage", func() { err = mg.Stage(m, op) })
				if err != nil {
					r.fail("stage", "staging failed: %v", err)
				}
				hard := db.hard
				r.lib("Manager.Commit", func() { err = mg.Commit() })
				r.logf("%s %s %s -> %s", op, kindNames[sl.kind], sl.id, errText(err))
				if err == nil {
					allowed[sl] = []interfaces.Model{next}
				} else {
					mg.Clear()
					if db.hard == hard {
						r.fail("commit-spurious", "a commit failed although the database did not: %v", err)
					}
				}
			}
			saved := db.fail
			db.fail.get, db.fail.before, db.fail.after = 0, 0, 0
			db.dieA = 0
			if s.Chance(1, 6) { // two tasks read at the same time
				second, _ := manager.New(db, simplecache.New())
				r.parallel(func() { check(mg, "in the same process") }, func() { check(second, "in another task") })
			} else {
				check(mg, "in the same process")
			}
			db.fail = saved
		})
		db.fail.get, db.fail.before, db.fail.after = 0, 0, 0
		db.dieA = 0
		if s.Chance(1, 3) {
			db.fail.get = rates[0]
		}
	}
	db.fail.get = 0
	r.process(func() {
		mg, _ := manager.New(db, simplecache.New())
		check(mg, "at the end")
	})
}

// wrongKind fills a model with one of another kind.
func (r *Run) wrongKind(kind int) {
	s := r.src
	m := newModelOf(kind)
	r.fill(reflect.ValueOf(m).Elem())
	was := deepCopy(m)
	other := newModelOf((kind + 1 + s.N(3)) % 4)
	r.fill(reflect.ValueOf(other).Elem())
	var arg interface{} = other
	if s.Chance(1, 5) {
		arg = []interface{}{nil, "text", 7, &market.Candle{}}[s.N(4)]
	}
	var err error
	r.lib(kindNames[kind]+".Update", func() { err = m.Update(arg) })
	r.fault("wrong-kind")
	r.eval(3)
	if err == nil {
		r.fail("wrong-kind-accepted", "a %s accepted a %T", kindNames[kind], arg)
	}
	if d := diffModels(was, m); d != "" {
		r.fail("wrong-kind-changed", "a refused update with a %T changed the %s: %s", arg, kindNames[kind], d)
	}
}

// records sends the other record types through their JSON form.
func (r *Run) records() {
	s := r.src
	r.fault("restart")
	for i, n := 0, 1+s.N(6); i < n; i++ {
		k := s.N(len(recordTypes))
		v := reflect.New(recordTypes[k])
		r.fill(v.Elem())
		old := s.Chance(1, 3)
		var b []byte
		if old {
			r.fault("upgrade")
			b = oldJSON(v.Elem())
		} else {
			var err error
			if b, err = json.Marshal(v.Interface()); err != nil {
				r.fail("record", "%s cannot be written: %v", recordTypes[k], err)
			}
		}
		w := reflect.New(recordTypes[k])
		if err := json.Unmarshal(b, w.Interface()); err != nil {
			r.fail("record", "%s cannot be read: %v", recordTypes[k], err)
		}
		if d := diffValue(v.Elem(), w.Elem()); d != "" {
			r.fail("record", "%s comes back different (written by the release before: %v): %s", recordTypes[k], old, d)
		}
		r.state(19, k)
		r.eval(uint64(len(b)))
	}
}
