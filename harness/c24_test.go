package harness

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"pgregory.net/rapid"
)

func plainSchema(names ...string) resultset.Schema {
	cols := []resultset.Column{}
	for _, n := range names {
		cols = append(cols, resultset.NewColumn(resultset.WithColumnName(n), resultset.WithColumnType(query.TextType)))
	}
	return resultset.NewSchema(resultset.WithSchemaDatabaseName("db"), resultset.WithSchemaTableName("t"), resultset.WithSchemaColumns(cols))
}

// TestC24_Cursor: a result set shows exactly the rows of its window, in order,
// through any sequence of cursor calls.
func TestC24_Cursor(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		n := size(t, 0, 30)
		schema := plainSchema("i", "x")
		var opts []resultset.ResultSetOption
		if chance(t, 90) { // else the rows stand as they are
			opts = append(opts, resultset.WithResultSetSchema(schema))
		}
		switch uniform(t, 3) {
		case 0:
			rows := []map[string]any{}
			for i := 0; i < n; i++ {
				rows = append(rows, map[string]any{"i": i, "x": fmt.Sprint("v", i)})
			}
			opts = append(opts, resultset.WithResultSetRowsOf(rows))
		case 1:
			rows := []resultset.Row{}
			for i := 0; i < n; i++ {
				rows = append(rows, resultset.NewRow(resultset.WithRowSchema(schema), resultset.WithRowValues([]any{i, fmt.Sprint("v", i)})))
			}
			opts = append(opts, resultset.WithResultSetRows(rows))
		default:
			rows := resultset.NewMapRows()
			for i := 0; i < n; i++ {
				rows = append(rows, resultset.MapRow{"i": i, "x": fmt.Sprint("v", i)})
			}
			rs, err := resultset.NewRowsFromMapRows(rows)
			if err != nil {
				t.Fatal(err)
			}
			opts = append(opts, resultset.WithResultSetRowsOf(rs))
		}
		bound := func() uint {
			switch uniform(t, 8) {
			case 0:
				return pick(t, uint(math.MaxUint), math.MaxUint-1, math.MaxInt64, 1<<63, math.MaxUint32)
			case 1:
				return uint(n)
			case 2:
				return uint(n + 1)
			}
			return uint(uniform(t, n+3))
		}
		var off, lim uint
		if chance(t, 60) {
			off = bound()
			opts = append(opts, resultset.WithResultSetOffset(off))
		}
		if chance(t, 60) {
			lim = bound()
			opts = append(opts, resultset.WithResultSetLimit(lim))
		}
		affected := uint(uniform(t, 1000))
		opts = append(opts, resultset.WithResultSetRowsAffected(affected))
		if chance(t, 30) {
			opts[1], opts[len(opts)-1] = opts[len(opts)-1], opts[1] // the order of options does not matter
		}
		rs, err := resultset.NewResultSetFrom(opts...)
		if err != nil {
			t.Fatal(err)
		}
		window := []int{}
		for i := 0; i < n; i++ {
			if uint(i) < off {
				continue
			}
			if lim > 0 && uint(len(window)) == lim {
				break
			}
			window = append(window, i)
		}
		desc := fmt.Sprintf("%d rows, offset %d, limit %d", n, off, lim)
		if rs.RowsAffected() != affected {
			t.Fatalf("%s: %d rows affected, want %d", desc, rs.RowsAffected(), affected)
		}
		if x, ok := rs.(interface {
			Offset() uint
			Limit() uint
		}); ok && (x.Offset() != off || x.Limit() != lim) {
			t.Fatalf("%s: offset %d limit %d", desc, x.Offset(), x.Limit())
		}
		pos := -1
		calls := ""
		for k, m := 0, 2*len(window)+4+uniform(t, 10); k < m; k++ {
			if chance(t, 55) {
				calls += "N"
				want := pos+1 < len(window)
				if got := rs.Next(); got != want {
					t.Fatalf("%s: after %s Next() is %v, want %v", desc, calls, got, want)
				}
				if pos < len(window) {
					pos++
				}
			} else {
				calls += "R"
				row, err := rs.Row()
				if pos < 0 || pos >= len(window) {
					if err == nil || !errors.Is(err, sqlerrors.ErrNoRows) {
						t.Fatalf("%s: after %s Row() is %v, error %v; want no row", desc, calls, row, err)
					}
					continue
				}
				if err != nil {
					t.Fatalf("%s: after %s Row() fails: %v", desc, calls, err)
				}
				want := []any{window[pos], fmt.Sprint("v", window[pos])}
				if !reflect.DeepEqual(row.Values(), want) {
					t.Fatalf("%s: after %s Row() is %v, want %v", desc, calls, row.Values(), want)
				}
			}
		}
		if err := rs.Close(); err != nil {
			t.Fatal(err)
		}
		note(n > 0 && (off > 0 || lim > 0), desc+" "+calls, fmt.Sprintf("window:%v", len(window) > 0))
	})
}

// ------------------------------------------------------------- C25: row access

var cellTypes = []string{"INT", "DOUBLE", "TEXT", "BOOLEAN", "BIGINT"}

func cellOf(t *rapid.T, typ string) any {
	if chance(t, 10) {
		return nil
	}
	switch typ {
	case "INT":
		return int(rapid.Int32().Draw(t, "n"))
	case "BIGINT":
		return rapid.Int64().Draw(t, "n")
	case "DOUBLE":
		return float64(uniform(t, 1<<20)-1<<19) / 64
	case "BOOLEAN":
		return chance(t, 50)
	}
	return stringValue(t)
}

// TestC25_Projection: a selected row has exactly the selected columns, in
// order, each with the value of its column or function.
func TestC25_Projection(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		names := distinct(t, size(t, 1, 12), genPlainName)
		types := map[string]string{}
		for _, n := range names {
			types[n.Val] = pick(t, cellTypes...)
		}
		tbl := tableSchema(t, vals(names), func(n string) string { return types[n] })
		rows := []map[string]any{}
		for i, n := 0, 1+uniform(t, 5); i < n; i++ {
			r := map[string]any{}
			for _, nm := range names {
				if chance(t, 95) {
					r[nm.Val] = cellOf(t, types[nm.Val])
				}
			}
			rows = append(rows, r)
		}
		type selWant struct {
			name string // column name in the result
			data string
			val  func(r map[string]any) any
			fn   string // column of the function's argument
		}
		parts, wants := []string{}, []selWant{}
		column := func(n string) selWant {
			return selWant{name: n, data: types[n], val: func(r map[string]any) any { return r[n] }}
		}
		addAll := func() {
			for _, nm := range names {
				wants = append(wants, column(nm.Val))
			}
		}
		hasFn := false
		for i, n := 0, size(t, 1, 8); i < n; i++ {
			nm := names[uniform(t, len(names))].Val
			switch k := uniform(t, 7); {
			case k == 0:
				parts = append(parts, "*")
				addAll()
			case k == 6: // functions of literals
				hasFn = true
				var part, data string
				var val any
				switch uniform(t, 4) {
				case 0:
					l := Lit{stringValue(t), true}
					f := pick(t, "UPPER", "LOWER", "TRIM")
					part, data = f+"("+l.Src()+")", "TEXT"
					val = map[string]func(string) string{"UPPER": strings.ToUpper, "LOWER": strings.ToLower, "TRIM": strings.TrimSpace}[f](l.Val)
				case 1:
					x := uniform(t, 2000) - 1000
					src := fmt.Sprint(x)
					if chance(t, 30) {
						src = "'" + src + "'"
					}
					part, data, val = "ABS("+src+")", "FLOAT", math.Abs(float64(x))
				case 2:
					x, y := float64(uniform(t, 100))/4, uniform(t, 4)
					part, data, val = fmt.Sprintf("POWER(%g, %d)", x, y), "FLOAT", math.Pow(x, float64(y))
				default:
					x, y := uniform(t, 1000), 1+uniform(t, 20)
					part, data, val = fmt.Sprintf("MOD(%d, '%d')", x, y), "FLOAT", float64(x%y)
				}
				parts = append(parts, part)
				wants = append(wants, selWant{part, data, func(map[string]any) any { return val }, ""})
			case k == 1 && types[nm] == "TEXT":
				hasFn = true
				f := pick(t, "UPPER", "LOWER", "TRIM")
				parts = append(parts, f+"("+nm+")")
				eval := map[string]func(string) string{"UPPER": strings.ToUpper, "LOWER": strings.ToLower, "TRIM": strings.TrimSpace}[f]
				for _, r := range rows {
					if r[nm] == nil {
						r[nm] = pick(t, any("x"), nil)
					}
				}
				wants = append(wants, selWant{f + "(" + nm + ")", "TEXT", func(r map[string]any) any {
					if r[nm] == nil {
						return nil
					}
					return eval(r[nm].(string))
				}, nm})
			case k == 1 && (types[nm] == "INT" || types[nm] == "DOUBLE"):
				hasFn = true
				f := pick(t, "ABS", "EXP", "COS")
				parts = append(parts, f+"("+nm+")")
				eval := map[string]func(float64) float64{"ABS": math.Abs, "EXP": math.Exp, "COS": math.Cos}[f]
				for _, r := range rows {
					if r[nm] == nil {
						r[nm] = pick(t, any(1), nil)
					}
				}
				wants = append(wants, selWant{f + "(" + nm + ")", "FLOAT", func(r map[string]any) any {
					if r[nm] == nil {
						return nil
					}
					x, _ := toFloat(r[nm])
					return eval(x)
				}, nm})
			default:
				parts = append(parts, randCase(t, nm))
				wants = append(wants, column(nm))
			}
		}
		text := "SELECT " + strings.Join(parts, ", ") + " FROM t"
		_, stmts, err := parseModels(text)
		if err != nil {
			// "SELECT *, a" and the like are part of the grammar.
			t.Fatalf("valid SQL is not parsed: %v\nSQL: %s", err, text)
		}
		sels := stmts[0].(query.Select).Selectors()
		schema, err := resultset.NewSchemaFrom(resultset.WithSchemaDatabaseName("db"), resultset.WithSchemaTableSchema(tbl), resultset.WithSchemaSelectors(sels))
		if err != nil {
			t.Fatalf("no schema for %s: %v", text, err)
		}
		if len(schema.Columns()) != len(wants) {
			t.Fatalf("%s has %d columns, want %d", text, len(schema.Columns()), len(wants))
		}
		for i, c := range schema.Columns() {
			if c.Name() != wants[i].name || c.DataType().String() != wants[i].data {
				t.Fatalf("%s: column %d is %s %s, want %s %s", text, i, c.Name(), c.DataType(), wants[i].name, wants[i].data)
			}
			if x, err := schema.LookupColumn(c.Name()); err != nil || x.Name() != c.Name() {
				t.Fatalf("%s: column %s is not found: %v", text, c.Name(), err)
			}
		}
		if schema.TableName() != "t" || schema.DatabaseName() != "db" {
			t.Fatalf("schema of %s.%s", schema.DatabaseName(), schema.TableName())
		}
		before := js(rows)
		rs, err := resultset.NewResultSetFrom(resultset.WithResultSetSchema(schema), resultset.WithResultSetRowsOf(rows))
		if err != nil {
			t.Fatal(err)
		}
		for i := 0; rs.Next(); i++ {
			row, err := rs.Row()
			if err != nil {
				// A function that refuses NULL refuses it also as a column, but nothing else.
				null := false
				for _, w := range wants {
					if w.fn != "" && rows[i][w.fn] == nil {
						ex, err := fn.NewExecutorForName(w.name[:strings.Index(w.name, "(")])
						if err != nil {
							t.Fatal(err)
						}
						_, err = ex.Execute([]any{nil})
						null = null || err != nil
					}
				}
				if !null {
					t.Fatalf("%s: row %d: %v", text, i, err)
				}
				continue
			}
			if len(row.Values()) != len(wants) {
				t.Fatalf("%s: %d values, want %d", text, len(row.Values()), len(wants))
			}
			seen := map[string]bool{}
			for k, w := range wants {
				want := w.val(rows[i])
				at, err1 := row.ValueAt(k)
				by, err2 := row.ValueBy(w.name)
				if w.fn != "" && want == nil && (at == nil || at == "") {
					want = at // NULL as a text is empty
				}
				if err1 != nil || err2 != nil || !sameCell(at, want) || !sameCell(by, want) || !sameCell(row.Object()[w.name], want) {
					t.Fatalf("%s: row %d column %s: at %v (%v), by %v (%v), want %v", text, i, w.name, at, err1, by, err2, want)
				}
				seen[w.name] = true
			}
			if len(row.Object()) != len(seen) {
				t.Fatalf("%s: row object %v has other columns than %v", text, row.Object(), seen)
			}
		}
		if js(rows) != before {
			t.Fatalf("reading changes the rows: %s, were %s", js(rows), before)
		}
		note(len(wants) > 1, text+" of "+js(rows), map[bool]string{true: "function", false: "columns"}[hasFn])
	})
}

func sameCell(a, b any) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && closeTo(x, y)
	}
	return reflect.DeepEqual(a, b)
}

// TestC25_UnknownSelector: selecting what the table does not have is an error.
func TestC25_UnknownSelector(t *testing.T) {
	prop(t, 15, func(t *rapid.T) {
		names := distinct(t, 2+uniform(t, 5), genPlainName)
		tbl := tableSchema(t, vals(names[1:]), func(string) string { return "TEXT" })
		sels := query.NewSelectors()
		for _, n := range rapid.Permutation(names).Draw(t, "perm") {
			sels = append(sels, query.NewColumnWithName(n.Val))
		}
		unknownFn := chance(t, 40)
		if unknownFn {
			sels = query.NewSelectorsWith(query.NewColumnWithName(names[1].Val), fn.NewFunction(fn.WithFunctionName("no_such_fn"), fn.WithFunctionArguments(fn.NewArgumentWith(names[1].Val))))
		}
		if !unknownFn && chance(t, 40) { // a function of a column that is not there
			sels = query.NewSelectors()
			at := uniform(t, len(names)-1)
			for i, n := range names[1:] {
				sels = append(sels, query.NewColumnWithName(n.Val))
				if i == at {
					f := pick(t, "UPPER", "LOWER", "TRIM", "ABS", "POWER", "MOD")
					args := []fn.Argument{fn.NewArgumentWith(names[0].Val)}
					if f == "POWER" || f == "MOD" {
						args = append(args, fn.NewArgumentWith("2"))
					}
					sels = append(sels, fn.NewFunction(fn.WithFunctionName(f), fn.WithFunctionArguments(args...)))
				}
			}
			obj := map[string]any{}
			for _, n := range names[1:] {
				obj[n.Val] = pick(t, "1", "2.5")
			}
			s, err := resultset.NewSchemaFrom(resultset.WithSchemaTableSchema(tbl), resultset.WithSchemaSelectors(sels))
			if err == nil {
				if row, err := resultset.NewRowFromObject(s, obj); err == nil {
					t.Fatalf("selecting %s from %v is answered: %v", sels, obj, row.Values())
				}
			}
			note(true, sels.String(), "unknown-argument")
			return
		}
		s, err := resultset.NewSchemaFrom(resultset.WithSchemaTableSchema(tbl), resultset.WithSchemaSelectors(sels))
		if err == nil {
			t.Fatalf("selecting %s from %v is accepted: %v", sels, vals(names[1:]), s)
		}
		note(true, sels.String(), fmt.Sprintf("unknown-fn:%v", unknownFn))
	})
}

// TestC25_Rows: the views of a row agree, and Scan stores exact values or fails.
func TestC25_Rows(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		names := vals(distinct(t, size(t, 1, 10), genPlainName))
		values := []any{}
		obj := map[string]any{}
		for _, n := range names {
			v := cellOf(t, pick(t, cellTypes...))
			values = append(values, v)
			obj[n] = v
		}
		withSchema := chance(t, 60)
		byObject := chance(t, 50)
		whole := true
		if byObject && withSchema && chance(t, 50) { // what the object lacks is NULL, what the schema lacks is no column
			whole = false
			for _, n := range names {
				if chance(t, 25) {
					delete(obj, n)
				}
			}
			if chance(t, 20) {
				obj["not in the schema"] = 1
			}
		}
		opts := []resultset.RowOption{}
		order := append([]string{}, names...)
		if withSchema {
			opts = append(opts, resultset.WithRowSchema(plainSchema(names...)))
		}
		if byObject {
			opts = append(opts, resultset.WithRowObject(obj))
			if !withSchema {
				sort.Strings(order)
			}
		} else {
			opts = append(opts, resultset.WithRowValues(values))
			if !withSchema {
				for i := range order {
					order[i] = fmt.Sprint(i + 1)
				}
			}
		}
		row := resultset.NewRow(opts...)
		want := map[string]any{}
		for i, n := range order {
			if byObject {
				want[n] = obj[n]
			} else {
				want[n] = values[i]
			}
		}
		first := chance(t, 50)
		if first {
			_ = row.Values()
		}
		for n, v := range row.Object() {
			if w, ok := want[n]; ok && !sameCell(v, w) {
				t.Fatalf("row object %v, want %v", row.Object(), want)
			}
		}
		if whole && !reflect.DeepEqual(row.Object(), want) {
			t.Fatalf("row object %v, want %v", row.Object(), want)
		}
		if len(row.Values()) != len(order) {
			t.Fatalf("row values %v of columns %v", row.Values(), order)
		}
		for i, n := range order {
			at, err := row.ValueAt(i)
			if err != nil || !sameCell(at, want[n]) || !sameCell(row.Values()[i], want[n]) {
				t.Fatalf("value at %d is %v (%v), want %v", i, at, err, want[n])
			}
			by, err := row.ValueBy(n)
			if _, ok := obj[n]; byObject && !ok && errors.Is(err, sqlerrors.ErrNotExist) {
				continue // neither is an object without the name wrong to have none
			}
			if err != nil || !sameCell(by, want[n]) {
				t.Fatalf("value by %s is %v (%v), want %v", n, by, err, want[n])
			}
			switch v := want[n].(type) {
			case nil: // NULL is refused or stored, never passed over
				str, num, num8, flt, yes, raw, tm := "old", int64(77), uint8(77), 77.5, true, []byte("old"), time.Unix(77, 0)
				for _, to := range []any{&str, &num, &num8, &flt, &yes, &raw, &tm} {
					before := reflect.ValueOf(to).Elem().Interface()
					var err error
					form := pick(t, "ScanAt", "ScanBy", "Scan")
					if _, ok := obj[n]; form == "ScanBy" && byObject && !ok || form == "Scan" && i > 0 {
						form = "ScanAt"
					}
					switch form {
					case "ScanAt":
						err = row.ScanAt(i, to)
					case "ScanBy":
						err = row.ScanBy(n, to)
					default:
						err = row.Scan(to)
					}
					if after := reflect.ValueOf(to).Elem().Interface(); err == nil && reflect.DeepEqual(before, after) {
						t.Fatalf("%s of NULL into %T passes and leaves %v", form, to, after)
					}
				}
			case string:
				s := "old"
				if err := row.ScanAt(i, &s); err != nil || s != v {
					t.Fatalf("scanned %q (%v), want %q", s, err, v)
				}
			case int64:
				var x int64
				if err := row.ScanBy(n, &x); err != nil || x != v {
					t.Fatalf("scanned %d (%v), want %d", x, err, v)
				}
				var s string
				if err := row.ScanBy(n, &s); err != nil || s != fmt.Sprint(v) {
					t.Fatalf("scanned %q (%v), want %d", s, err, v)
				}
				var small int8
				if err := row.ScanAt(i, &small); (err == nil) != (v >= -128 && v <= 127) || err == nil && int64(small) != v {
					t.Fatalf("scanned %d into 8 bits: %d, error %v", v, small, err)
				}
			case int:
				var x int
				if err := row.ScanAt(i, &x); err != nil || x != v {
					t.Fatalf("scanned %d (%v), want %d", x, err, v)
				}
			case float64:
				var x float64
				if err := row.ScanBy(n, &x); err != nil || x != v {
					t.Fatalf("scanned %v (%v), want %v", x, err, v)
				}
			case bool:
				var x bool
				if err := row.ScanAt(i, &x); err != nil || x != v {
					t.Fatalf("scanned %v (%v), want %v", x, err, v)
				}
			}
		}
		// Scan stores the leading values in order.
		texts, targets := make([]string, len(order)), []any{}
		upto := 0
		for i, n := range order {
			if want[n] == nil {
				break
			}
			if _, ok := want[n].(string); !ok {
				break
			}
			targets = append(targets, &texts[i])
			upto++
		}
		if err := row.Scan(targets...); err != nil {
			t.Fatalf("Scan fails: %v", err)
		}
		for i := 0; i < upto; i++ {
			if texts[i] != want[order[i]] {
				t.Fatalf("Scan gives %q at %d, want %v", texts[i], i, want[order[i]])
			}
		}
		var s string
		for _, i := range []int{-1, len(order), len(order) + 5, math.MinInt, math.MaxInt} {
			if v, err := row.ValueAt(i); err == nil || !errors.Is(err, sqlerrors.ErrNotExist) {
				t.Fatalf("value at %d of %d is %v (%v)", i, len(order), v, err)
			}
			if err := row.ScanAt(i, &s); err == nil || !errors.Is(err, sqlerrors.ErrNotExist) {
				t.Fatalf("scan at %d of %d: error %v", i, len(order), err)
			}
		}
		for _, name := range []string{"no such column", "0", "1", "2", "*", "$1", "?", pick(t, order...) + " ", "t." + pick(t, order...), "`" + pick(t, order...) + "`"} {
			if _, ok := obj[name]; ok || slices.Contains(order, name) {
				continue
			}
			if v, err := row.ValueBy(name); err == nil || !errors.Is(err, sqlerrors.ErrNotExist) {
				t.Fatalf("value by the unknown name %q is %v (%v)", name, v, err)
			}
			if err := row.ScanBy(name, &s); err == nil || !errors.Is(err, sqlerrors.ErrNotExist) {
				t.Fatalf("scan by the unknown name %q: error %v", name, err)
			}
		}
		all := []any{}
		for range order {
			all = append(all, new(string))
		}
		if err := row.Scan(append(all, new(string))...); err == nil {
			t.Fatalf("scanning %d values into %d targets is accepted", len(order), len(all)+1)
		}
		note(len(order) > 1, js(obj), fmt.Sprintf("schema:%v object:%v", withSchema, byObject))
	})
}

// TestC25_Made: rows and schemas made from objects and lists have exactly what
// the object or list holds.
func TestC25_Made(t *testing.T) {
	prop(t, 30, func(t *rapid.T) {
		names := vals(distinct(t, size(t, 1, 10), genPlainName))
		obj, types := map[string]any{}, map[string]string{}
		for _, n := range names {
			types[n] = pick(t, cellTypes...)
			obj[n] = cellOf(t, types[n])
		}
		what := pick(t, "short", "object", "row-object", "rows", "lookup")
		switch what {
		case "short": // a list of values with fewer or more values than the schema has columns
			values := []any{}
			for i, n := 0, within(t, 0, len(names)+3); i < n; i++ {
				values = append(values, i+1)
			}
			row := resultset.NewRow(resultset.WithRowSchema(plainSchema(names...)), resultset.WithRowValues(values))
			got := row.Object()
			if len(got) != len(names) {
				t.Fatalf("row %v of columns %v is %v", values, names, got)
			}
			for i, n := range names {
				var want any
				if i < len(values) {
					want = i + 1
				}
				if v, ok := got[n]; !ok || v != want {
					t.Fatalf("row %v of columns %v is %v", values, names, got)
				}
			}
		case "object": // what is selected, and nothing else
			tbl := tableSchema(t, names, func(n string) string { return types[n] })
			chosen := []string{}
			for _, n := range names {
				if chance(t, 60) {
					chosen = append(chosen, n)
				}
			}
			sels := query.NewSelectors()
			for _, n := range chosen {
				sels = append(sels, query.NewColumnWithName(n))
			}
			fail := ""
			if len(chosen) > 0 && chance(t, 30) { // a function that fails
				fail = pick(t, chosen...)
				obj[fail] = -1 - uniform(t, 100)
				sels = append(sels, fn.NewFunction(fn.WithFunctionName("SQRT"), fn.WithFunctionArguments(fn.NewArgumentWith(fail))))
			}
			schema, err := resultset.NewSchemaFrom(resultset.WithSchemaTableSchema(tbl), resultset.WithSchemaSelectors(sels))
			if err != nil {
				t.Fatal(err)
			}
			gone := ""
			if fail == "" && chance(t, 30) {
				gone = pick(t, names...)
				delete(obj, gone)
			}
			before := js(obj)
			row, err := resultset.NewRowFromObject(schema, obj)
			if js(obj) != before {
				t.Fatalf("making a row changes its object: %s, was %s", js(obj), before)
			}
			if fail != "" {
				if err == nil {
					t.Fatalf("SQRT(%v) gives the row %v", obj[fail], row.Object())
				}
				break
			}
			if err != nil || len(row.Object()) != len(chosen) || len(row.Values()) != len(chosen) {
				t.Fatalf("row of %v from %v is %v (%v)", chosen, obj, row, err)
			}
			for i, n := range chosen {
				if !sameCell(row.Object()[n], obj[n]) || !sameCell(row.Values()[i], obj[n]) {
					t.Fatalf("row of %v from %v is %v", chosen, obj, row.Object())
				}
			}
		case "row-object": // a column for each value, typed by it
			bad := false
			for _, n := range names {
				if obj[n] == nil {
					bad = true
				}
			}
			s, err := resultset.NewSchemaFrom(resultset.WithSchemaRowObject(obj))
			if bad != (err != nil) {
				t.Fatalf("schema of %v: %v", obj, err)
			}
			if bad {
				break
			}
			sorted := append([]string{}, names...)
			sort.Strings(sorted)
			if len(s.Columns()) != len(sorted) {
				t.Fatalf("schema of %v has %d columns", obj, len(s.Columns()))
			}
			for i, c := range s.Columns() {
				want, err := query.NewDataTypeForValue(obj[sorted[i]])
				if err != nil || c.Name() != sorted[i] || c.DataType() != want {
					t.Fatalf("schema of %v: column %d is %s %s", obj, i, c.Name(), c.DataType())
				}
			}
		case "rows":
			bad := pick(t, any(nil), any("rows"), any(obj), any([]any{obj}), any([]string{"a"}))
			if rs, err := resultset.NewResultSetFrom(resultset.WithResultSetSchema(plainSchema(names...)), resultset.WithResultSetRowsOf(bad)); err == nil {
				t.Fatalf("rows of %T are accepted: %v", bad, rs)
			}
		default:
			s := plainSchema(names...)
			for _, n := range names {
				if c, err := s.LookupColumn(n); err != nil || c.Name() != n {
					t.Fatalf("column %s is %v (%v)", n, c, err)
				}
			}
			for _, n := range []string{"", "no such column", names[0] + " x", "*"} {
				if c, err := s.LookupColumn(n); !errors.Is(err, query.ErrNotFound) {
					t.Fatalf("column %q of %v is %v (%v)", n, names, c, err)
				}
			}
			sels := s.Selectors()
			for i, n := range names {
				if len(sels) != len(names) || sels[i].Name() != n {
					t.Fatalf("selectors %v of %v", sels, names)
				}
			}
		}
		note(len(names) > 1, what+js(obj), "made-"+what)
	})
}
