package harness

import (
	"errors"
	"fmt"
	"maps"
	"math"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"pgregory.net/rapid"
)

// -------------------------------------------------------------- aggregation model

type aggrModel struct {
	name   string
	arg    string
	groups []string
	order  []string
	keys   map[string][]any
	vals   map[string][]float64
	counts map[string]int
	abs    map[string]float64
}

func newAggrModel(name, arg string, groups []string) *aggrModel {
	return &aggrModel{name: name, arg: arg, groups: groups, keys: map[string][]any{}, vals: map[string][]float64{}, counts: map[string]int{}, abs: map[string]float64{}}
}

// add records one row; v is nil for NULL.
func (m *aggrModel) add(keys []any, v any, f float64) {
	id := fmt.Sprintf("%#v", keys)
	if _, ok := m.keys[id]; !ok {
		m.keys[id] = append([]any{}, keys...)
		m.order = append(m.order, id)
	}
	if v == nil && m.arg != "*" {
		return
	}
	m.counts[id]++
	m.vals[id] = append(m.vals[id], f)
}

func (m *aggrModel) value(id string) any {
	vs := m.vals[id]
	sum := 0.0
	for _, v := range vs {
		sum += v
	}
	switch m.name {
	case "COUNT":
		return float64(m.counts[id])
	case "SUM":
		return sum
	}
	if len(vs) == 0 {
		return nil
	}
	switch m.name {
	case "AVG":
		return sum / float64(len(vs))
	case "MIN":
		x := math.Inf(1)
		for _, v := range vs {
			x = math.Min(x, v)
		}
		return x
	}
	x := math.Inf(-1)
	for _, v := range vs {
		x = math.Max(x, v)
	}
	return x
}

// rows gives the expected result; dir is 0, 1 (ascending) or -1.
func (m *aggrModel) rows(dir int) [][]any {
	if len(m.groups) == 0 {
		return [][]any{{m.value(fmt.Sprintf("%#v", []any{}))}}
	}
	ids := append([]string{}, m.order...)
	if dir != 0 {
		sort.SliceStable(ids, func(i, j int) bool {
			c := cmpKeys(m.keys[ids[i]], m.keys[ids[j]])
			return c*dir < 0
		})
	}
	out := [][]any{}
	for _, id := range ids {
		out = append(out, append(append([]any{}, m.keys[id]...), m.value(id)))
	}
	return out
}

func cmpKeys(a, b []any) int {
	for i := range a {
		switch x := a[i].(type) {
		case int:
			y := b[i].(int)
			if x != y {
				return map[bool]int{true: -1, false: 1}[x < y]
			}
		case float64:
			y := b[i].(float64)
			if x != y {
				return map[bool]int{true: -1, false: 1}[x < y]
			}
		case string:
			if c := strings.Compare(x, b[i].(string)); c != 0 {
				return c
			}
		}
	}
	return 0
}

func sameAny(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, ok1 := toFloat(a)
	y, ok2 := toFloat(b)
	if ok1 && ok2 {
		return x == y || math.IsNaN(x) && math.IsNaN(y) || math.Abs(x-y) <= 1e-9*math.Max(math.Abs(x), math.Abs(y))
	}
	return reflect.DeepEqual(a, b)
}

func sameRows(got [][]any, want [][]any) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if len(got[i]) != len(want[i]) {
			return false
		}
		for j := range got[i] {
			if !sameAny(got[i][j], want[i][j]) {
				return false
			}
		}
	}
	return true
}

func readAggr(rs fn.ResultSet) ([][]any, []map[string]any, error) {
	if _, err := rs.Row(); !errors.Is(err, fn.ErrNoData) {
		return nil, nil, fmt.Errorf("row before the first: error %v", err)
	}
	out, maps := [][]any{}, []map[string]any{}
	for rs.Next() {
		r, err := rs.Row()
		if err != nil {
			return nil, nil, err
		}
		m, err := rs.Map()
		if err != nil {
			return nil, nil, err
		}
		out = append(out, append([]any{}, r...))
		maps = append(maps, m)
	}
	if rs.Next() {
		return nil, nil, fmt.Errorf("Next() after the last row is true")
	}
	return out, maps, nil
}

var keyTexts = []string{"", "a", "b", ",", "a,b", "1:a", "a,", ",a", "-", "-,", "1", "NULL", "é", "A", "ab", "b,c", "a b", "0:", "10", "9", "-5", "1.0", "01", "true", "a\x00", "aa"}

// keyColumn draws the values of one grouping column.
func keyColumn(t *rapid.T, nulls bool) func() any {
	kind, wide := uniform(t, 3), chance(t, 30)
	return func() any {
		if nulls && chance(t, 12) {
			return nil
		}
		switch kind {
		case 0:
			if wide && chance(t, 30) {
				return pick(t, 10, 100, 9, -10, 1<<53, 1<<53+1, math.MaxInt64, math.MaxInt64-1, math.MinInt64, math.MinInt64+1)
			}
			return uniform(t, 4) - 1
		case 1:
			if wide && chance(t, 30) {
				return pick(t, 0.1, 0.30000000000000004, 0.3, 1e300, -1e300, 5e-324, -5e-324, 1e21, 123456789.25)
			}
			return float64(uniform(t, 5))/2 - 0.5
		}
		return pick(t, keyTexts...)
	}
}

// measure draws an aggregated value; sums of these are exact.
func measure(t *rapid.T, name string) (any, float64) {
	if name == "COUNT" && chance(t, 30) {
		return pick(t, any("abc"), any(true), any("")), 0
	}
	if (name == "MIN" || name == "MAX") && chance(t, 10) {
		f := pick(t, math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 1e-300)
		return f, f
	}
	switch uniform(t, 8) {
	case 0:
		return nil, 0
	case 1:
		n := uniform(t, 20) - 10
		return n, float64(n)
	case 2:
		n := int64(uniform(t, 1<<20))
		return n, float64(n)
	case 3:
		n := uniform(t, 400)
		return fmt.Sprint(n), float64(n)
	case 4:
		n := int8(uniform(t, 256) - 128)
		return n, float64(n)
	case 5:
		n := -1 - uniform(t, 1<<20)
		return n, float64(n)
	}
	f := float64(uniform(t, 1<<16)-1<<15) / 64
	return f, f
}

var aggrNames = []string{"COUNT", "SUM", "AVG", "MIN", "MAX"}

func groupNames(t *rapid.T) []string {
	n := pick(t, 0, 1, 1, 1, 2, 2, 3)
	return []string{"g1", "city", "K"}[:n]
}

func newAggr(t *rapid.T, name, arg string, groups []string) (fn.Aggregator, error) {
	opts := []fn.AggregatorOption{fn.WithAggregatorArguments([]string{arg}), fn.WithAggregatorGroupBys(groups...)}
	if chance(t, 20) {
		opts = append([]fn.AggregatorOption{fn.WithAggregatorName(name)}, opts...)
	}
	if chance(t, 50) {
		return fn.NewAggregatorForName(randCase(t, name), opts...)
	}
	switch name {
	case "COUNT":
		return fn.NewCount(fn.WithCountArguments([]string{arg}), fn.WithCountGroupBys(groups...))
	case "SUM":
		return fn.NewSum(fn.WithSumArguments([]string{arg}), fn.WithSumGroupBys(groups...))
	case "AVG":
		return fn.NewAvg(fn.WithAvgArguments([]string{arg}), fn.WithAvgGroupBys(groups...))
	case "MIN":
		return fn.NewMin(fn.WithMinArguments([]string{arg}), fn.WithMinGroupBys(groups...))
	}
	return fn.NewMax(fn.WithMaxArguments([]string{arg}), fn.WithMaxGroupBys(groups...))
}

// TestC21_History: an aggregator is its model through any history of rows,
// refused rows, results and resets.
func TestC21_History(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		name := pick(t, aggrNames...)
		arg := "v"
		if name == "COUNT" && chance(t, 30) {
			arg = "*"
		}
		groups := groupNames(t)
		nulls := chance(t, 40)
		aggr, err := newAggr(t, name, arg, groups)
		if err != nil {
			t.Fatalf("no aggregator %s(%s): %v", name, arg, err)
		}
		model := newAggrModel(name, arg, groups)
		log := []string{fmt.Sprintf("%s(%s) by %v", name, arg, groups)}
		cols := []func() any{}
		remake := func() {
			cols = nil
			for range groups {
				cols = append(cols, keyColumn(t, nulls))
			}
		}
		remake()
		type kept struct {
			rs   fn.ResultSet
			cols []string
			rows [][]any
			log  int
		}
		earlier := []kept{}
		check := func(dir int) {
			opts := []any{}
			switch dir {
			case 1:
				opts = append(opts, fn.OrderByAsc)
			case -1:
				opts = append(opts, fn.OrderByDesc)
			}
			rs, err := aggr.Finalize(opts...)
			if err != nil {
				t.Fatalf("Finalize fails: %v\nhistory: %s", err, strings.Join(log, "; "))
			}
			wantCols := append(append([]string{}, groups...), fmt.Sprintf("%s(%s)", name, arg))
			if !reflect.DeepEqual(rs.Columns(), wantCols) {
				t.Fatalf("columns %v, want %v", rs.Columns(), wantCols)
			}
			want := model.rows(map[bool]int{true: 0, false: dir}[nulls])
			if !(dir != 0 && nulls) && chance(t, 30) { // read it later
				earlier = append(earlier, kept{rs, wantCols, want, len(log)})
				return
			}
			got, maps, err := readAggr(rs)
			if err != nil {
				t.Fatalf("reading the result: %v\nhistory: %s", err, strings.Join(log, "; "))
			}
			if dir != 0 && nulls { // where NULL stands in the order is not laid down
				byText := func(rows [][]any) {
					sort.SliceStable(rows, func(i, j int) bool {
						return fmt.Sprintf("%#v", rows[i][:len(groups)]) < fmt.Sprintf("%#v", rows[j][:len(groups)])
					})
				}
				byText(got)
				byText(want)
				maps = nil
			}
			if !sameRows(got, want) {
				t.Fatalf("result differs (order %d)\nhistory: %s\ngot:  %v\nwant: %v", dir, strings.Join(log, "; "), got, want)
			}
			for i, m := range maps {
				for j, c := range wantCols {
					if v, ok := m[c]; !ok || !sameAny(v, want[i][j]) {
						t.Fatalf("result map %v has no %s = %v", m, c, want[i][j])
					}
				}
			}
		}
		accepted, refused, resets := 0, 0, 0
		for i, n := 0, 2+size(t, 0, 40); i < n; i++ {
			switch k := uniform(t, 20); {
			case k == 0: // reset, perhaps with another grouping
				resets++
				opts := []any{}
				if chance(t, 60) {
					groups = groupNames(t)
					switch {
					case len(groups) == 1 && chance(t, 50):
						opts = append(opts, groups[0])
					default:
						opts = append(opts, append([]string{}, groups...))
					}
				}
				if chance(t, 30) && arg != "*" { // the rows of the next run are read by another column
					arg = map[string]string{"v": "w", "w": "v"}[arg]
					opts = append(opts, fn.WithAggregatorArguments([]string{arg}))
				}
				if err := aggr.Reset(opts...); err != nil {
					t.Fatalf("Reset fails: %v", err)
				}
				log = append(log, fmt.Sprintf("RESET %v", groups))
				model = newAggrModel(name, arg, groups)
				remake()
			case k == 1 || k == 3: // a result in between changes nothing
				check(0)
				log = append(log, "result")
			case k == 4: // a refused reset
				if err := aggr.Reset(pick(t, any(1.5), any(nil), any([]int{1}), any(fn.OrderByAsc))); err == nil {
					t.Fatalf("a reset with an unknown option is accepted")
				}
				if err := aggr.Reset(); err != nil {
					t.Fatalf("Reset fails: %v", err)
				}
				log = append(log, "RESET")
				model = newAggrModel(name, arg, groups)
			case k == 2: // a refused row changes nothing
				refused++
				var bad any
				switch uniform(t, 5) {
				case 4: // a column is missing
					m := map[string]any{"other": 1, "v": 1, "w": 1}
					for j, g := range groups {
						m[g] = cols[j]()
					}
					gone := append([]string{}, groups...)
					if arg != "*" {
						gone = append(gone, arg)
					}
					if len(gone) == 0 {
						bad = 1.5
						break
					}
					delete(m, pick(t, gone...))
					bad = pick[any](t, m, fn.NewMapWithMap(m))
				case 0:
					bad = make([]any, len(groups)) // too short
				case 1:
					bad = map[string]any{"other": 1}
					if len(groups) == 0 && arg == "*" {
						bad = "text"
					}
				case 2:
					bad = pick(t, any(1), any("x"), any(nil), any([]string{"a"}))
				default:
					row := []any{}
					for _, c := range cols {
						row = append(row, c())
					}
					if name == "COUNT" {
						row = append(row, 1) // too long
					}
					bad = append(row, "no number")
				}
				log = append(log, fmt.Sprintf("bad %v", bad))
				if err := aggr.Aggregate(bad); err == nil {
					t.Fatalf("row %#v is accepted\nhistory: %s", bad, strings.Join(log, "; "))
				}
			default:
				accepted++
				keys := []any{}
				for _, c := range cols {
					keys = append(keys, c())
				}
				v, f := measure(t, name)
				var in any
				row := append(append([]any{}, keys...), v)
				m := map[string]any{"other": 7, "v": 12345, "w": 54321}
				if arg != "*" {
					m[arg] = v
				}
				for j, g := range groups {
					m[g] = keys[j]
				}
				switch uniform(t, 4) {
				case 0:
					in = row
				case 1:
					in = fn.NewRow(row...)
				case 2:
					in = m
				default:
					in = fn.NewMapWithMap(m)
				}
				log = append(log, fmt.Sprintf("%v", row))
				if err := aggr.Aggregate(in); err != nil {
					t.Fatalf("row %#v is refused: %v\nhistory: %s", in, err, strings.Join(log, "; "))
				}
				model.add(keys, v, f)
				for j := range row { // the caller may reuse its row
					row[j] = "reused"
				}
			}
		}
		check(0)
		check(1)
		check(-1)
		check(0)
		for _, k := range earlier { // results do not change after they are made
			got, maps, err := readAggr(k.rs)
			if err != nil || !reflect.DeepEqual(k.rs.Columns(), k.cols) || !sameRows(got, k.rows) {
				t.Fatalf("the result made after step %d has changed (error %v)\nhistory: %s\ngot:  %v %v\nwant: %v %v", k.log, err, strings.Join(log, "; "), k.rs.Columns(), got, k.cols, k.rows)
			}
			for i, m := range maps {
				for j, c := range k.cols {
					if v, ok := m[c]; !ok || !sameAny(v, k.rows[i][j]) {
						t.Fatalf("result map %v has no %s = %v", m, c, k.rows[i][j])
					}
				}
			}
		}
		note(accepted > 1 && len(model.order) > 1 || resets > 0 && accepted > 0 || len(groups) == 0 && accepted > 1, strings.Join(log, "; "), name, fmt.Sprintf("groups%d", len(groups)))
	})
}

// TestC21_Arguments: an aggregate has exactly one argument.
func TestC21_Arguments(t *testing.T) {
	prop(t, 5, func(t *rapid.T) {
		name := pick(t, aggrNames...)
		args := []string{}
		for i, n := 0, pick(t, 0, 2, 3); i < n; i++ {
			args = append(args, plainName(t))
		}
		var a any
		var err error
		switch name {
		case "COUNT":
			a, err = fn.NewCount(fn.WithCountArguments(args))
		case "SUM":
			a, err = fn.NewSum(fn.WithSumArguments(args))
		case "AVG":
			a, err = fn.NewAvg(fn.WithAvgArguments(args))
		case "MIN":
			a, err = fn.NewMin(fn.WithMinArguments(args))
		default:
			a, err = fn.NewMax(fn.WithMaxArguments(args))
		}
		if err == nil {
			t.Fatalf("%s of %v is accepted: %v", name, args, a)
		}
		if a, err := fn.NewAggregatorForName(name, fn.WithAggregatorArguments(args)); err == nil {
			t.Fatalf("%s of %v is accepted: %v", name, args, a)
		}
		// one bad name or argument list refuses the whole set
		names := []string{}
		for i, n := 0, size(t, 1, 5); i < n; i++ {
			names = append(names, pick(t, aggrNames...))
		}
		one := []string{plainName(t)}
		if set, err := fn.NewAggregatorSetForNames(names, fn.WithAggregatorArguments(one)); err != nil || len(set) != len(names) {
			t.Fatalf("set of %q: %d, %v", names, len(set), err)
		}
		if set, err := fn.NewAggregatorSetForNames(names, fn.WithAggregatorArguments(args)); err == nil {
			t.Fatalf("set of %q with arguments %q is accepted: %v", names, args, set)
		}
		names[uniform(t, len(names))] = pick(t, "ABS", "", "SUMS", "x")
		if set, err := fn.NewAggregatorSetForNames(names, fn.WithAggregatorArguments(one)); err == nil {
			t.Fatalf("set of %q is accepted: %v", names, set)
		}
		note(true, name+js(args), "arguments")
	})
}

// -------------------------------------------------------------- C22: several at once

type aggrTable struct {
	cols []string
	rows []map[string]any
	nums []map[string]float64
}

// genAggrTable draws rows of grouping columns g, h and measures a, b, c.
func genAggrTable(t *rapid.T) aggrTable {
	tb := aggrTable{cols: []string{"g", "h", "a", "b", "c"}}
	kg, kh := keyColumn(t, chance(t, 30)), keyColumn(t, chance(t, 30))
	repeat := chance(t, 30)
	for i, n := 0, size(t, 0, 40); i < n; i++ {
		r, f := map[string]any{"g": kg(), "h": kh()}, map[string]float64{}
		for _, c := range tb.cols[2:] {
			v, x := measure(t, "SUM")
			r[c], f[c] = v, x
		}
		if repeat && len(tb.rows) > 0 && chance(t, 50) { // equal rows are rows of their own
			k := len(tb.rows) - 1
			if chance(t, 30) {
				k = uniform(t, len(tb.rows))
			}
			r, f = maps.Clone(tb.rows[k]), tb.nums[k]
		}
		tb.rows = append(tb.rows, r)
		tb.nums = append(tb.nums, f)
	}
	return tb
}

type aggrSel struct{ name, arg string }

func genAggrSels(t *rapid.T, min int) []aggrSel {
	out := []aggrSel{}
	for i, n := 0, size(t, min, 7); i < n; i++ {
		s := aggrSel{pick(t, aggrNames...), pick(t, "a", "b", "c")}
		if s.name == "COUNT" && chance(t, 40) {
			s.arg = "*"
		}
		out = append(out, s)
	}
	return out
}

// expected gives one column of results per aggregate, and the group keys.
func (tb aggrTable) expected(sels []aggrSel, groups []string) (keys [][]any, cols [][]any) {
	for k, s := range sels {
		m := newAggrModel(s.name, s.arg, groups)
		for i, r := range tb.rows {
			ks := []any{}
			for _, g := range groups {
				ks = append(ks, r[g])
			}
			m.add(ks, r[s.arg], tb.nums[i][s.arg])
		}
		col := []any{}
		for _, row := range m.rows(0) {
			if k == 0 {
				keys = append(keys, row[:len(groups)])
			}
			col = append(col, row[len(groups)])
		}
		cols = append(cols, col)
	}
	return keys, cols
}

// TestC22_Sets: a set of aggregates gives, per group, what each gives alone.
func TestC22_Sets(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		tb := genAggrTable(t)
		sels := genAggrSels(t, 1)
		groups := [][]string{{}, {"g"}, {"h"}, {"g", "h"}, {"h", "g"}}[uniform(t, 5)]
		var set fn.AggregatorSet
		how := ""
		switch k := uniform(t, 3); {
		case k == 0:
			how = "separate"
			aggrs := []fn.Aggregator{}
			for _, s := range sels {
				a, err := newAggr(t, s.name, s.arg, groups)
				if err != nil {
					t.Fatal(err)
				}
				aggrs = append(aggrs, a)
			}
			set = fn.NewAggregatorSetWith(aggrs)
		case k == 1:
			how = "by-names"
			names := []string{}
			for i := range sels {
				sels[i].arg = "a"
				names = append(names, randCase(t, sels[i].name))
			}
			var err error
			set, err = fn.NewAggregatorSetForNames(names, fn.WithAggregatorArguments([]string{"a"}), fn.WithAggregatorGroupBys(groups...))
			if err != nil {
				t.Fatal(err)
			}
		default:
			how = "select"
			if len(groups) > 1 {
				groups = groups[:1]
			}
			parts := []string{}
			for _, g := range groups {
				if chance(t, 50) {
					parts = append(parts, g)
				}
			}
			for _, s := range sels {
				parts = append(parts, fmt.Sprintf("%s(%s)", randCase(t, s.name), s.arg))
			}
			text := "SELECT " + strings.Join(parts, ", ") + " FROM t"
			if len(groups) > 0 {
				text += " GROUP BY " + groups[0]
			}
			describe(text)
			_, stmts, err := parseModels(text)
			if err != nil || len(stmts) != 1 {
				t.Fatalf("valid SQL is not parsed: %v\nSQL: %s", err, text)
			}
			x, ok := stmts[0].(interface {
				Aggregators() (query.AggregatorSet, error)
				HasAggregator() bool
			})
			if !ok {
				t.Fatalf("%T has no aggregators", stmts[0])
			}
			if !x.HasAggregator() {
				t.Fatalf("no aggregate function in %s", text)
			}
			set, err = x.Aggregators()
			if err != nil {
				t.Fatalf("no aggregators for %s: %v", text, err)
			}
		}
		type kept struct {
			rs   fn.ResultSet
			cols []string
			rows [][]any
		}
		earlier := []kept{}
		for round := 0; round < 3; round++ {
			if round > 0 && chance(t, 40) {
				tb = genAggrTable(t)
			}
			for _, r := range tb.rows {
				var in any = r
				if chance(t, 30) {
					in = fn.NewMapWithMap(r)
				}
				if err := set.Aggregate(in); err != nil {
					t.Fatalf("row %v is refused: %v", r, err)
				}
			}
			rs, err := set.Finalize()
			if err != nil {
				t.Fatalf("Finalize fails: %v\n%v by %v over %v", err, sels, groups, tb.rows)
			}
			wantCols := append([]string{}, groups...)
			for _, s := range sels {
				wantCols = append(wantCols, fmt.Sprintf("%s(%s)", s.name, s.arg))
			}
			if !reflect.DeepEqual(rs.Columns(), wantCols) {
				t.Fatalf("columns %v, want %v", rs.Columns(), wantCols)
			}
			keys, cols := tb.expected(sels, groups)
			want := [][]any{}
			for i := range keys {
				row := append([]any{}, keys[i]...)
				for _, c := range cols {
					row = append(row, c[i])
				}
				want = append(want, row)
			}
			if chance(t, 30) { // read it later
				earlier = append(earlier, kept{rs, wantCols, want})
			} else {
				got, _, err := readAggr(rs)
				if err != nil {
					t.Fatal(err)
				}
				if !sameRows(got, want) {
					t.Fatalf("result differs\n%s %v by %v over %v\ngot:  %v\nwant: %v", how, sels, groups, tb.rows, got, want)
				}
			}
			// The same again after a reset, perhaps with another grouping.
			opts := []any{}
			if chance(t, 50) {
				if chance(t, 60) {
					groups = pick(t, []string{}, []string{"g"}, []string{"h"}, []string{"g", "h"}, []string{"h", "g"})
				}
				opts = append(opts, append([]string{}, groups...))
			}
			if err := set.Reset(opts...); err != nil {
				t.Fatal(err)
			}
		}
		for _, k := range earlier {
			got, _, err := readAggr(k.rs)
			if err != nil || !reflect.DeepEqual(k.rs.Columns(), k.cols) || !sameRows(got, k.rows) {
				t.Fatalf("a result changes after it was made (error %v)\n%s %v\ngot:  %v %v\nwant: %v %v", err, how, sels, k.rs.Columns(), got, k.cols, k.rows)
			}
		}
		note(len(sels) > 1 && len(tb.rows) > 1, fmt.Sprintf("%v by %v over %v", sels, groups, tb.rows), how, fmt.Sprintf("groups%d", len(groups)))
	})
}

// TestC22_Refused: rows that some of the aggregates refuse never mix up the groups.
func TestC22_Refused(t *testing.T) {
	prop(t, 30, func(t *rapid.T) {
		tb := genAggrTable(t)
		sels := genAggrSels(t, 2)
		groups := [][]string{{"g"}, {"h"}, {"g", "h"}}[uniform(t, 3)]
		blank := ""
		if len(groups) == 2 && chance(t, 30) { // only the other key tells the groups apart
			blank = pick(t, "g", "h")
		}
		aggrs := []fn.Aggregator{}
		with, without := []*aggrModel{}, []*aggrModel{}
		for _, s := range sels {
			a, err := newAggr(t, s.name, s.arg, groups)
			if err != nil {
				t.Fatal(err)
			}
			aggrs = append(aggrs, a)
			with = append(with, newAggrModel(s.name, s.arg, groups))
			without = append(without, newAggrModel(s.name, s.arg, groups))
		}
		set := fn.NewAggregatorSetWith(aggrs)
		bads := 0
		for i, r := range tb.rows {
			row := map[string]any{}
			for k, v := range r {
				row[k] = v
			}
			bad := ""
			if bads == 0 && chance(t, 20) {
				bad = pick(t, "a", "b", "c")
				row[bad] = "no number"
				row["g"] = pick(t, any("fresh"), row["g"], nil)
			}
			if blank != "" {
				row[blank] = nil
			}
			refused := false
			keys := []any{}
			for _, g := range groups {
				keys = append(keys, row[g])
			}
			for k, s := range sels {
				if s.arg == bad && s.name != "COUNT" {
					refused = true
					continue
				}
				with[k].add(keys, row[s.arg], tb.nums[i][s.arg])
			}
			err := set.Aggregate(row)
			if (err != nil) != refused {
				t.Fatalf("%v of row %v: error %v, want an error: %v", sels, row, err, refused)
			}
			if refused {
				bads++
				continue
			}
			for k, s := range sels {
				without[k].add(keys, row[s.arg], tb.nums[i][s.arg])
			}
		}
		desc := fmt.Sprintf("%v by %v over %v", sels, groups, tb.rows)
		rs, err := set.Finalize()
		if err != nil {
			if bads == 0 {
				t.Fatalf("%s: %v", desc, err)
			}
			note(true, desc, "error")
			return
		}
		got, _, err := readAggr(rs)
		if err != nil {
			t.Fatal(err)
		}
		seen := map[string]bool{}
		for _, row := range got {
			if len(row) != len(groups)+len(sels) {
				t.Fatalf("row %v has not one value per column %v\n%s", row, rs.Columns(), desc)
			}
			id := fmt.Sprintf("%#v", row[:len(groups)])
			if seen[id] {
				t.Fatalf("group %s occurs twice\n%s", id, desc)
			}
			seen[id] = true
			for k := range sels {
				v := row[len(groups)+k]
				if !sameAny(v, with[k].value(id)) && !sameAny(v, without[k].value(id)) {
					t.Fatalf("%v of group %s is %v, want %v (or %v with refused rows)\n%s", sels[k], id, v, without[k].value(id), with[k].value(id), desc)
				}
			}
		}
		for _, id := range without[0].order {
			if !seen[id] {
				t.Fatalf("group %s is missing\n%s", id, desc)
			}
		}
		note(bads > 0, desc, "refused")
	})
}

// -------------------------------------------------- C23: aggregated result sets

func tableSchema(t *rapid.T, cols []string, types func(string) string) query.Schema {
	cs := query.NewColumns()
	for _, c := range cols {
		d, err := buildDef(Col{Name: c, Type: types(c)})
		if err != nil {
			t.Fatal(err)
		}
		cs = append(cs, d)
	}
	return query.NewSchemaWith("t", query.WithSchemaColumns(cs))
}

// TestC23_Select: SELECT with aggregates over a result set gives one row per
// group with the selected columns in order.
func TestC23_Select(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		tb := genAggrTable(t)
		sels := genAggrSels(t, 1)
		group := pick(t, "", "g", "h")
		parts := []string{}
		type want struct {
			key bool
			n   int
		}
		wants := []want{}
		for n, s := range sels {
			if group != "" && chance(t, 25) {
				parts = append(parts, group)
				wants = append(wants, want{key: true})
			}
			parts = append(parts, fmt.Sprintf("%s(%s)", s.name, s.arg))
			wants = append(wants, want{n: n})
		}
		text := "SELECT " + strings.Join(parts, ", ") + " FROM t"
		if group != "" {
			text += " GROUP BY " + group
		}
		describe(text)
		_, stmts, err := parseModels(text)
		if err != nil || len(stmts) != 1 {
			t.Fatalf("valid SQL is not parsed: %v\nSQL: %s", err, text)
		}
		sel := stmts[0].(query.Select)
		tblSchema := tableSchema(t, tb.cols, func(string) string { return "DOUBLE" })
		source := func() (resultset.ResultSet, aggrTable) {
			rsSchema, err := resultset.NewSchemaFrom(resultset.WithSchemaDatabaseName("db"), resultset.WithSchemaTableSchema(tblSchema), resultset.WithSchemaSelectors(tblSchema.Selectors()))
			if err != nil {
				t.Fatal(err)
			}
			win := tb
			opts := []resultset.ResultSetOption{resultset.WithResultSetSchema(rsSchema), resultset.WithResultSetRowsOf(append([]map[string]any{}, tb.rows...))}
			if chance(t, 10) { // a source that has only rows
				opts = opts[1:]
			}
			if chance(t, 30) && len(tb.rows) > 0 {
				off := uniform(t, len(tb.rows)+1)
				lim := uniform(t, len(tb.rows)+2)
				opts = append(opts, resultset.WithResultSetOffset(uint(off)), resultset.WithResultSetLimit(uint(lim)))
				end := len(tb.rows)
				if lim > 0 && off+lim < end {
					end = off + lim
				}
				win.rows, win.nums = tb.rows[off:end], tb.nums[off:end]
			}
			rs, err := resultset.NewResultSetFrom(opts...)
			if err != nil {
				t.Fatal(err)
			}
			return rs, win
		}
		type held struct {
			row    resultset.Row
			values []any
		}
		kept := []held{}
		keyed := false
		for _, w := range wants {
			keyed = keyed || w.key
		}
		for round := 0; round < 3; round++ {
			src, win := source()
			group, groupBy := group, sel.GroupBy()
			if round == 1 && !keyed && chance(t, 40) {
				// The same selectors under another grouping.
				group = pick(t, "", "g", "h")
				groupBy = query.NewGroupBy()
				if group != "" {
					groupBy = query.NewGroupByWith(group)
				}
			}
			groups := []string{}
			if group != "" {
				groups = append(groups, group)
			}
			keys, cols := win.expected(sels, groups)
			opts := []resultset.AggregatedResultSetOptions{
				resultset.WithAggregatedResultSetTableSchema(tblSchema), resultset.WithAggregatedResultSetSelectors(sel.Selectors()), resultset.WithAggregatedResultSetSource(src),
			}
			if group != "" || chance(t, 50) {
				opts = append(opts, resultset.WithAggregatedResultSetGroupBy(groupBy))
			}
			rs, err := resultset.NewAggregatedResultSetFrom(opts...)
			if err != nil {
				t.Fatalf("%s fails: %v\nrows: %v", text, err, win.rows)
			}
			names := []string{}
			for _, c := range rs.Schema().Columns() {
				names = append(names, c.Name())
			}
			if !reflect.DeepEqual(names, parts) {
				t.Fatalf("%s has columns %v", text, names)
			}
			db := "db"
			if src.Schema() == nil {
				db = ""
			}
			if rs.Schema().DatabaseName() != db || rs.Schema().TableName() != "t" {
				t.Fatalf("%s is of %s.%s", text, rs.Schema().DatabaseName(), rs.Schema().TableName())
			}
			got := [][]any{}
			for rs.Next() {
				row, err := rs.Row()
				if err != nil {
					t.Fatal(err)
				}
				for i, p := range parts {
					v, err := row.ValueBy(p)
					if err != nil || !sameAny(v, row.Values()[i]) {
						t.Fatalf("%s: value of %s is %v (%v), at %d it is %v", text, p, v, err, i, row.Values()[i])
					}
				}
				got = append(got, append([]any{}, row.Values()...))
				kept = append(kept, held{row, got[len(got)-1]})
			}
			exp := [][]any{}
			for i := range keys {
				row := []any{}
				for _, w := range wants {
					if w.key {
						row = append(row, keys[i][0])
					} else {
						row = append(row, cols[w.n][i])
					}
				}
				exp = append(exp, row)
			}
			if !sameRows(got, exp) {
				t.Fatalf("%s differs\nrows: %v\ngot:  %v\nwant: %v", text, win.rows, got, exp)
			}
		}
		for _, k := range kept {
			if v := k.row.Values(); !sameRows([][]any{v}, [][]any{k.values}) {
				t.Fatalf("%s: a row %v reads as %v after the query ran again", text, k.values, v)
			}
		}
		note(len(sels) > 1 && len(tb.rows) > 1, fmt.Sprintf("%s over %v", text, tb.rows), "group:"+group)
	})
}

// TestC23_NoAggregate: without an aggregate the source is passed on as it is.
func TestC23_NoAggregate(t *testing.T) {
	prop(t, 10, func(t *rapid.T) {
		tb := genAggrTable(t)
		tblSchema := tableSchema(t, tb.cols, func(string) string { return "DOUBLE" })
		rsSchema, err := resultset.NewSchemaFrom(resultset.WithSchemaTableSchema(tblSchema), resultset.WithSchemaSelectors(tblSchema.Selectors()))
		if err != nil {
			t.Fatal(err)
		}
		src := resultset.NewResultSet(resultset.WithResultSetSchema(rsSchema), resultset.WithResultSetRowsOf(tb.rows))
		rs, err := resultset.NewAggregatedResultSetFrom(
			resultset.WithAggregatedResultSetTableSchema(tblSchema), resultset.WithAggregatedResultSetSelectors(tblSchema.Selectors()), resultset.WithAggregatedResultSetSource(src))
		if err != nil {
			t.Fatal(err)
		}
		n := 0
		for rs.Next() {
			row, err := rs.Row()
			if err != nil {
				t.Fatal(err)
			}
			for _, c := range tb.cols {
				if v, err := row.ValueBy(c); err != nil || !sameAny(v, tb.rows[n][c]) {
					t.Fatalf("row %d: %s is %v (%v), want %v", n, c, v, err, tb.rows[n][c])
				}
			}
			n++
		}
		if n != len(tb.rows) {
			t.Fatalf("%d rows, want %d", n, len(tb.rows))
		}
		note(n > 1, fmt.Sprint(tb.rows), "plain")
	})
}

// TestC23_Refused: what cannot be aggregated is an error, never an answer that leaves something out.
func TestC23_Refused(t *testing.T) {
	prop(t, 20, func(t *rapid.T) {
		tb := genAggrTable(t)
		for len(tb.rows) == 0 {
			tb = genAggrTable(t)
		}
		sels := genAggrSels(t, 1)
		parts := []string{}
		for _, s := range sels {
			parts = append(parts, fmt.Sprintf("%s(%s)", s.name, s.arg))
		}
		group := pick(t, "", "g", "h")
		what := pick(t, "schema", "selectors", "source", "function", "unknown-function", "value", "argument", "group", "column")
		at := uniform(t, len(tb.rows))
		rows := []map[string]any{}
		for _, r := range tb.rows {
			c := map[string]any{}
			for k, v := range r {
				c[k] = v
			}
			rows = append(rows, c)
		}
		insert := func(s string) {
			k := uniform(t, len(parts)+1)
			parts = append(parts[:k:k], append([]string{s}, parts[k:]...)...)
		}
		switch what {
		case "function":
			insert(pick(t, "UPPER(g)", "ABS(a)", "NOW()", "ROUND(b)"))
		case "unknown-function":
			insert("no_such_function(a)")
		case "value":
			rows[at]["a"] = pick(t, any("no number"), any(""), any([]int{1}))
			insert(pick(t, "SUM", "AVG", "MIN", "MAX") + "(a)")
		case "argument":
			insert(pick(t, aggrNames...) + "(absent)")
		case "group":
			group = pick(t, "absent", "G1", "gg")
		case "column":
			insert(pick(t, "absent", "t_a", "aa", "a + 1", "1"))
		}
		text := "SELECT " + strings.Join(parts, ", ") + " FROM t"
		if group != "" {
			text += " GROUP BY " + group
		}
		describe(what + ": " + text)
		_, stmts, err := parseModels(text)
		if err != nil || len(stmts) != 1 {
			t.Fatalf("valid SQL is not parsed: %v\nSQL: %s", err, text)
		}
		sel := stmts[0].(query.Select)
		tbl := tableSchema(t, tb.cols, func(string) string { return "DOUBLE" })
		rsSchema, err := resultset.NewSchemaFrom(resultset.WithSchemaDatabaseName("db"), resultset.WithSchemaTableSchema(tbl), resultset.WithSchemaSelectors(tbl.Selectors()))
		if err != nil {
			t.Fatal(err)
		}
		src, err := resultset.NewResultSetFrom(resultset.WithResultSetSchema(rsSchema), resultset.WithResultSetRowsOf(rows))
		if err != nil {
			t.Fatal(err)
		}
		opts := []resultset.AggregatedResultSetOptions{resultset.WithAggregatedResultSetGroupBy(sel.GroupBy())}
		if what != "schema" {
			opts = append(opts, resultset.WithAggregatedResultSetTableSchema(tbl))
		}
		if what != "selectors" {
			opts = append(opts, resultset.WithAggregatedResultSetSelectors(sel.Selectors()))
		}
		if what != "source" {
			opts = append(opts, resultset.WithAggregatedResultSetSource(src))
		}
		if rs, err := resultset.NewAggregatedResultSetFrom(opts...); err == nil {
			t.Fatalf("%s (%s) is answered: %v\nrows: %v", text, what, rs, rows)
		}
		note(true, fmt.Sprintf("%s over %v", text, rows), "refused-"+what)
	})
}

// TestC22_Rows: a table of results gives back its values by row and by name.
func TestC22_Rows(t *testing.T) {
	prop(t, 20, func(t *rapid.T) {
		names := vals(distinct(t, size(t, 0, 8), genPlainName))
		rows := []fn.Row{}
		uneven := false
		for i, n := 0, size(t, 0, 6); i < n; i++ {
			row := fn.Row{}
			m := len(names)
			if chance(t, 40) {
				m = uniform(t, len(names)+3)
			}
			uneven = uneven || m != len(names)
			for k := 0; k < m; k++ {
				row = append(row, cellOf(t, pick(t, cellTypes...)))
			}
			rows = append(rows, row)
		}
		describe(js(names) + " " + js(rows))
		rs := fn.NewResultSet(fn.WithColumns(names), fn.WithRows(rows))
		if !sameStrings(rs.Columns(), names) {
			t.Fatalf("columns %q, want %q", rs.Columns(), names)
		}
		if _, err := rs.Row(); err == nil {
			t.Fatalf("a row before the first one")
		}
		for i, row := range rows {
			if !rs.Next() {
				t.Fatalf("%d rows, want %d", i, len(rows))
			}
			got, err := rs.Row()
			if err != nil || len(got) != len(row) {
				t.Fatalf("row %d: %v %v, want %v", i, got, err, row)
			}
			for k := range row {
				if !sameCell(got[k], row[k]) {
					t.Fatalf("row %d: %v, want %v", i, got, row)
				}
			}
			for _, again := range []bool{false, true} {
				m, err := rs.Map()
				if err != nil || len(m) != len(names) {
					t.Fatalf("row %d as a map: %v %v, want the columns %q", i, m, err, names)
				}
				for k, n := range names {
					var want any
					if k < len(row) {
						want = row[k]
					}
					if v, ok := m[n]; !ok || !sameCell(v, want) {
						t.Fatalf("row %d %v: column %s is %v, want %v (again %v)", i, row, n, v, want, again)
					}
					m[n] = "overwritten" // the map belongs to the caller
				}
			}
		}
		if rs.Next() {
			t.Fatalf("more than %d rows", len(rows))
		}
		note(len(rows) > 1 && len(names) > 1, js(names)+" "+js(rows), fmt.Sprintf("uneven:%v", uneven))
	})
}
