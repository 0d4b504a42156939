package harness

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/cybergarage/go-sqlparser/sql/query"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------ C17: schema evolution

type schemaModel struct {
	Cols []Col
	Idxs []Idx
	gone []string // names dropped or never there
}

func (m schemaModel) clone() schemaModel {
	return schemaModel{append([]Col{}, m.Cols...), append([]Idx{}, m.Idxs...), append([]string{"nothing_", ""}, m.gone...)}
}

func (m *schemaModel) col(name string) int {
	for i, c := range m.Cols {
		if strings.EqualFold(c.Name, name) {
			return i
		}
	}
	return -1
}

func (m *schemaModel) idx(name string) int {
	for i, x := range m.Idxs {
		if strings.EqualFold(x.Name, name) {
			return i
		}
	}
	return -1
}

// reusable gives a dropped name that is free again, or none.
func (m *schemaModel) reusable(t *rapid.T) string {
	if len(m.gone) == 0 || chance(t, 60) {
		return ""
	}
	name := m.gone[uniform(t, len(m.gone))]
	if name == "" || m.col(name) >= 0 || m.idx(name) >= 0 {
		return ""
	}
	return name
}

// compare reads the schema through its interface.
func (m *schemaModel) compare(t *rapid.T, s query.Schema, log []string) {
	got := schemaModel{Cols: []Col{}, Idxs: []Idx{}}
	for _, c := range s.Columns() {
		got.Cols = append(got.Cols, colDefOf(c))
	}
	for _, i := range s.Indexes() {
		got.Idxs = append(got.Idxs, idxOf(i))
	}
	if js(got.Cols) != js(append([]Col{}, m.Cols...)) || js(got.Idxs) != js(append([]Idx{}, m.Idxs...)) {
		t.Fatalf("schema differs from its history\nhistory: %s\ngot:  %s\nwant: %s", strings.Join(log, "; "), js(got), js(m))
	}
	for _, c := range m.Cols {
		name := c.Name
		if chance(t, 50) {
			name = randCase(t, name)
		}
		x, err := s.LookupColumn(name)
		if err != nil || x != s.Columns()[m.col(name)] {
			t.Fatalf("column %s is not found: %v, %v\nhistory: %s", name, x, err, strings.Join(log, "; "))
		}
	}
	for _, c := range m.Idxs {
		name := c.Name
		if chance(t, 50) {
			name = randCase(t, name)
		}
		x, err := s.LookupIndex(name)
		if err != nil || x != s.Indexes()[m.idx(name)] {
			t.Fatalf("index %s is not found: %v, %v\nhistory: %s", name, x, err, strings.Join(log, "; "))
		}
	}
	asks := append([]string{}, m.gone...)
	asks = append(asks, specialNames...)
	for _, c := range m.Cols { // a column is no index, an index no column
		asks = append(asks, c.Name, c.Name+" ", s.TableName()+"."+c.Name)
	}
	for _, i := range m.Idxs {
		asks = append(asks, i.Name, i.Name+" ", i.Type, strings.Join(i.Cols, "_"))
	}
	asks = append(asks, s.TableName())
	for _, name := range asks {
		if name != "" && chance(t, 50) {
			name = randCase(t, name)
		}
		if m.col(name) < 0 {
			if x, err := s.LookupColumn(name); err == nil || x != nil || !errors.Is(err, query.ErrNotFound) {
				t.Fatalf("missing column %s is found: %v, error %v\nhistory: %s", name, x, err, strings.Join(log, "; "))
			}
		}
		if m.idx(name) < 0 {
			if x, err := s.LookupIndex(name); err == nil || x != nil || !errors.Is(err, query.ErrNotFound) {
				t.Fatalf("missing index %s is found: %v, error %v\nhistory: %s", name, x, err, strings.Join(log, "; "))
			}
		}
	}
	sels := []string{}
	for _, x := range s.Selectors() {
		sels = append(sels, x.Name())
	}
	names := []string{}
	for _, c := range m.Cols {
		names = append(names, c.Name)
	}
	if !reflect.DeepEqual(sels, names) {
		t.Fatalf("selectors %v of the schema, want %v", sels, names)
	}
}

// specialNames are names that mean something elsewhere.
var specialNames = []string{"", " ", "*", "PRIMARY", "PRIMARY KEY", "PRIMARY_KEY", "PRIMARYKEY", "KEY", "INDEX", "UNIQUE", "pk", "id", "0", "1", "NULL", "default", "%", "_"}

func alterFrom(t *rapid.T, text string) query.AlterTable {
	describe(text)
	_, stmts, err := parseModels(text)
	if err != nil || len(stmts) != 1 {
		t.Fatalf("valid SQL is not parsed: %v\nSQL: %s", err, text)
	}
	if a, ok := stmts[0].(query.AlterTable); ok {
		return a
	}
	a, err := query.NewAlterTableFrom(stmts[0])
	if err != nil {
		t.Fatalf("no ALTER TABLE for %s: %v", text, err)
	}
	return a
}

// TestC17_History applies a history of changes to schemas and to models of them.
func TestC17_History(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		var model schemaModel
		// The first schema comes from SQL or from the constructors.
		g := genCreateTable(t, Opt{Plain: true})
		model.Cols, model.Idxs = g.M.Cols, g.M.Idxs
		seen := map[string]bool{}
		var idxs []Idx
		for _, i := range model.Idxs { // index names are distinct
			if !seen[strings.ToUpper(i.Name)] {
				seen[strings.ToUpper(i.Name)] = true
				idxs = append(idxs, i)
			}
		}
		g.M.Idxs = idxs
		model = schemaModel{Cols: g.M.Cols, Idxs: idxs}
		log := []string{}
		built, err := build(t, g.M)
		if err != nil {
			t.Fatal(err)
		}
		text := built.String()
		var schema query.Schema
		if chance(t, 50) {
			log = append(log, text)
			stmt := expectOne(t, text, g.M)
			schema = stmt.(query.CreateTable).Schema()
		} else {
			log = append(log, "built "+text)
			schema = built.(query.CreateTable).Schema()
		}
		type pair struct {
			s query.Schema
			m schemaModel
		}
		all := []pair{{schema, model.clone()}}
		adds, drops, failed := 0, 0, 0
		next := 0
		for step, n := 0, 3+size(t, 0, 25); step < n; step++ {
			k := uniform(t, len(all))
			p := &all[k]
			tag := fmt.Sprintf("#%d ", k)
			bySQL := chance(t, 50)
			switch uniform(t, 8) {
			case 7: // renaming is done or refused, never passed over
				to := fmt.Sprintf("%s_r%d", plainName(t), step)
				if len(p.m.Cols) == 0 || chance(t, 40) {
					log = append(log, tag+"RENAME TO "+to)
					if err := p.s.Alter(alterFrom(t, "ALTER TABLE t RENAME TO "+to)); err == nil && p.s.TableName() != to {
						t.Fatalf("renaming to %s leaves %s\nhistory: %s", to, p.s.TableName(), strings.Join(log, "; "))
					}
					break
				}
				i := uniform(t, len(p.m.Cols))
				from := p.m.Cols[i].Name
				if p.m.col(from) != i {
					break
				}
				log = append(log, tag+"RENAME "+from+" TO "+to)
				if err := p.s.Alter(alterFrom(t, "ALTER TABLE t RENAME "+pick(t, "", "COLUMN ")+from+" TO "+to)); err == nil {
					cols := append([]Col{}, p.m.Cols...)
					cols[i].Name = to
					p.m.Cols = cols
				}
			case 0, 1: // add a column
				next++
				c := Col{Name: fmt.Sprintf("%s_n%d", plainName(t), next), Type: pick(t, dataTypes...)}
				if old := p.m.reusable(t); old != "" {
					c.Name = old
				}
				again := len(p.m.Cols) > 0 && chance(t, 10)
				if again { // a name that the schema has already is added or refused, but replaces nothing
					c.Name = randCase(t, p.m.Cols[uniform(t, len(p.m.Cols))].Name)
				}
				if chance(t, 30) {
					c.Len = 1 + uniform(t, 300)
				}
				def, err := buildDef(c)
				if err != nil {
					t.Fatal(err)
				}
				log = append(log, tag+"ADD "+def.DefinitionString())
				if bySQL {
					err = p.s.Alter(alterFrom(t, "ALTER TABLE t ADD "+pick(t, "", "COLUMN ")+def.DefinitionString()))
				} else {
					err = p.s.AddColumn(def)
				}
				if err != nil && again {
					break
				}
				if err != nil {
					t.Fatalf("column is not added: %v\nhistory: %s", err, strings.Join(log, "; "))
				}
				p.m.Cols = append(p.m.Cols[:len(p.m.Cols):len(p.m.Cols)], c)
				adds++
			case 2, 3: // drop a column
				name := "no_such_column"
				if len(p.m.Cols) > 0 && chance(t, 85) {
					name = randCase(t, p.m.Cols[uniform(t, len(p.m.Cols))].Name)
				}
				log = append(log, tag+"DROP "+name)
				var err error
				if bySQL {
					err = p.s.Alter(alterFrom(t, "ALTER TABLE t DROP "+pick(t, "", "COLUMN ")+name))
				} else {
					err = p.s.DropColumn(name)
				}
				if i := p.m.col(name); i >= 0 {
					if err != nil {
						t.Fatalf("column is not dropped: %v\nhistory: %s", err, strings.Join(log, "; "))
					}
					p.m.gone = append(p.m.gone[:len(p.m.gone):len(p.m.gone)], p.m.Cols[i].Name)
					p.m.Cols = append(append([]Col{}, p.m.Cols[:i]...), p.m.Cols[i+1:]...)
					drops++
				} else {
					if err == nil || !errors.Is(err, query.ErrNotFound) {
						t.Fatalf("dropping a missing column: error %v\nhistory: %s", err, strings.Join(log, "; "))
					}
					failed++
				}
			case 4: // add an index
				next++
				i := Idx{Name: fmt.Sprintf("%s_i%d", plainName(t), next), Type: "INDEX", Cols: []string{plainName(t)}}
				if old := p.m.reusable(t); old != "" {
					i.Name = old
				}
				again := len(p.m.Idxs) > 0 && chance(t, 10)
				if again {
					i.Name = randCase(t, p.m.Idxs[uniform(t, len(p.m.Idxs))].Name)
					again = i.Name != ""
				}
				if i.Name == "" {
					i.Name = fmt.Sprintf("i%d", next)
				}
				log = append(log, tag+"ADD INDEX "+i.Name)
				var err error
				switch uniform(t, 3) {
				case 0:
					err = p.s.AddIndex(buildIdx(i))
				case 1:
					err = p.s.Alter(alterFrom(t, "CREATE INDEX "+i.Name+" ON t("+i.Cols[0]+")"))
				default:
					err = p.s.Alter(alterFrom(t, "ALTER TABLE t ADD INDEX "+i.Name+"("+i.Cols[0]+")"))
				}
				if err != nil && again {
					break
				}
				if err != nil {
					t.Fatalf("index is not added: %v\nhistory: %s", err, strings.Join(log, "; "))
				}
				p.m.Idxs = append(p.m.Idxs[:len(p.m.Idxs):len(p.m.Idxs)], i)
				adds++
			case 5: // drop an index
				name := "no_such_index"
				if len(p.m.Idxs) > 0 && chance(t, 85) {
					name = randCase(t, p.m.Idxs[uniform(t, len(p.m.Idxs))].Name)
				}
				log = append(log, tag+"DROP INDEX "+name)
				var err error
				if bySQL {
					err = p.s.Alter(alterFrom(t, "DROP INDEX t."+name))
				} else {
					err = p.s.DropIndex(name)
				}
				if i := p.m.idx(name); i >= 0 {
					if err != nil {
						t.Fatalf("index is not dropped: %v\nhistory: %s", err, strings.Join(log, "; "))
					}
					p.m.gone = append(p.m.gone[:len(p.m.gone):len(p.m.gone)], p.m.Idxs[i].Name)
					p.m.Idxs = append(append([]Idx{}, p.m.Idxs[:i]...), p.m.Idxs[i+1:]...)
					drops++
				} else {
					if err == nil || !errors.Is(err, query.ErrNotFound) {
						t.Fatalf("dropping a missing index: error %v\nhistory: %s", err, strings.Join(log, "; "))
					}
					failed++
				}
			default: // derive a schema from this one
				if len(all) < 4 {
					log = append(log, fmt.Sprintf("#%d = copy of #%d", len(all), k))
					s := query.NewSchemaWith("copy", query.WithSchemaColumns(p.s.Columns()), query.WithSchemaIndexes(p.s.Indexes()))
					all = append(all, pair{s, p.m.clone()})
				}
			}
			for i := range all {
				all[i].m.compare(t, all[i].s, log)
			}
		}
		note(adds > 0 && drops > 0, strings.Join(log, "; "), "history")
	})
}

// --------------------------------------------------------- C18: values and types

type typedValue struct {
	src  string // as SQL literal
	str  bool
	want any
	bad  bool
}

func intRange(bits int) (lo, hi int64) { return -(1 << (bits - 1)), 1<<(bits-1) - 1 }

func genTyped(t *rapid.T, typ string) typedValue {
	if chance(t, 8) {
		return typedValue{src: "NULL", want: nil}
	}
	bits := map[string]int{"TINYINT": 8, "SMALLINT": 16, "INT": 32, "INTEGER": 32, "BIGINT": 64}
	if b, ok := bits[typ]; ok {
		lo, hi := intRange(b)
		var n int64
		switch uniform(t, 4) {
		case 0:
			n = pick(t, lo, hi, lo+1, hi-1, 0, 1, -1)
		default:
			n = rapid.Int64Range(lo, hi).Draw(t, "n")
		}
		v := typedValue{src: fmt.Sprint(n), str: chance(t, 30)}
		switch b {
		case 8:
			v.want = int8(n)
		case 16:
			v.want = int16(n)
		case 32:
			v.want = int32(n)
		default:
			v.want = n
		}
		if chance(t, 12) {
			v.bad = true
			switch {
			case b == 64 && chance(t, 40): // beyond every integer type
				v.src = pick(t, "9223372036854775808", "-9223372036854775809", "18446744073709551616", "1e19", "-1e19", "9.3e18", "1e300")
			case b == 64 || chance(t, 30):
				v.src, v.str = pick(t, "abc", "1x", "", "x1", "- 1"), true
			case chance(t, 50):
				v.src = fmt.Sprint(hi + 1 + int64(uniform(t, 1000)))
			default:
				v.src = fmt.Sprint(lo - 1 - int64(uniform(t, 1000)))
			}
		}
		return v
	}
	switch typ {
	case "FLOAT", "DOUBLE":
		s := strings.TrimPrefix(pick(t, fmt.Sprint(uniform(t, 100000)), fmt.Sprintf("%d.%d", uniform(t, 1000), uniform(t, 100000)), fmt.Sprintf("-%d.%de%d", uniform(t, 10), uniform(t, 1000), uniform(t, 30)), "0", "-0.5"), "+")
		v := typedValue{src: s, str: chance(t, 30)}
		if chance(t, 10) {
			return typedValue{src: pick(t, "abc", "1.x", "--1", "", " ", "1,000", "1.2.3", "e5", "1e", ".", "1 2", "-", "0x"), str: true, bad: true}
		}
		if typ == "FLOAT" && chance(t, 5) {
			return typedValue{src: pick(t, "1e39", "-3.5e38", "3.5e38", "-1e300", "1e308"), str: chance(t, 50), bad: true}
		}
		if typ == "FLOAT" {
			f, _ := strconv.ParseFloat(s, 32)
			v.want = float32(f)
		} else {
			v.want, _ = strconv.ParseFloat(s, 64)
		}
		return v
	case "BOOLEAN":
		b := chance(t, 50)
		if chance(t, 10) {
			return typedValue{src: pick(t, "yes?", "maybe", "tru", "", " ", "-1", "0.5x", "nil"), str: true, bad: true}
		}
		if b {
			return typedValue{src: pick(t, "TRUE", "true"), str: chance(t, 40), want: true}
		}
		return typedValue{src: pick(t, "FALSE", "false"), str: chance(t, 40), want: false}
	}
	s := stringValue(t)
	return typedValue{src: s, str: true, want: s}
}

var coercedTypes = []string{"TINYINT", "SMALLINT", "INT", "INTEGER", "BIGINT", "FLOAT", "DOUBLE", "BOOLEAN", "TEXT", "VARCHAR", "CHAR", "TIMESTAMP", "DATETIME", "BLOB"}

func sameValue(a, b any) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && (x == y || math.IsNaN(x) && math.IsNaN(y))
	}
	return reflect.DeepEqual(a, b)
}

// TestC18_Coercion: applying a table schema to inserted values gives every value
// the type of its column, exactly, or fails.
func TestC18_Coercion(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		n := size(t, 1, 10)
		names := distinct(t, n, genPlainName)
		cols := query.NewColumns()
		vals := []typedValue{}
		types := []string{}
		bad := false
		texts := []string{}
		for _, nm := range names {
			typ := pick(t, coercedTypes...)
			c, err := buildDef(Col{Name: nm.Val, Type: typ})
			if err != nil {
				t.Fatal(err)
			}
			cols = append(cols, c)
			types = append(types, typ)
			v := genTyped(t, typ)
			bad = bad || v.bad
			vals = append(vals, v)
			texts = append(texts, Lit{v.src, v.str}.Src())
		}
		schema := query.NewSchemaWith("t", query.WithSchemaColumns(cols))
		// The inserted columns stand in another order and another case.
		perm := rapid.Permutation(seq(n)).Draw(t, "perm")
		used, parts := []string{}, []string{}
		for _, i := range perm {
			used = append(used, randCase(t, names[i].Val))
			parts = append(parts, texts[i])
		}
		text := "INSERT INTO t (" + strings.Join(used, ", ") + ") VALUES (" + strings.Join(parts, ", ") + ")"
		update := chance(t, 30)
		if update {
			as := []string{}
			for k := range used {
				as = append(as, used[k]+" = "+parts[k])
			}
			text = "UPDATE t SET " + strings.Join(as, ", ")
		}
		describe(text)
		_, stmts, err := parseModels(text)
		if err != nil || len(stmts) != 1 {
			t.Fatalf("valid SQL is not parsed: %v\nSQL: %s", err, text)
		}
		var row query.Columns
		if update {
			row = stmts[0].(query.Update).Columns()
		} else {
			row = stmts[0].(query.Insert).Values()[0]
		}
		keep := row.Copy()
		before := []any{}
		for _, c := range row {
			before = append(before, c.Value())
		}
		err = row.SetSchema(schema)
		if bad != (err != nil) {
			t.Fatalf("SetSchema error %v, but invalid value is %v\nSQL: %s\ntypes: %v", err, bad, text, types)
		}
		for k, c := range keep {
			if !sameValue(c.Value(), before[k]) {
				t.Fatalf("a copied column changed with its original: %v, was %v\nSQL: %s", c.Value(), before[k], text)
			}
		}
		if err == nil {
			for k, i := range perm {
				got := row[k].Value()
				if vals[i].want == nil {
					if got != nil && !strings.EqualFold(fmt.Sprint(got), "NULL") {
						t.Fatalf("NULL becomes %v\nSQL: %s", got, text)
					}
					continue
				}
				if !sameValue(got, vals[i].want) {
					t.Fatalf("column %s %s: value %T(%v), want %T(%v)\nSQL: %s", used[k], types[i], got, got, vals[i].want, vals[i].want, text)
				}
				if row[k].DataType().String() != types[i] {
					t.Fatalf("column %s: data type %s, want %s", used[k], row[k].DataType(), types[i])
				}
			}
		}
		note(n > 1, text+" AS "+strings.Join(types, ","), map[bool]string{true: "invalid", false: "valid"}[bad])
	})
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// TestC18_SetValue: a typed column keeps the exact value it is given, or refuses it.
func TestC18_SetValue(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		typ := pick(t, "TINYINT", "SMALLINT", "INT", "INTEGER", "BIGINT", "DOUBLE")
		c, err := buildDef(Col{Name: "c", Type: typ})
		if err != nil {
			t.Fatal(err)
		}
		n := rapid.Int64().Draw(t, "n")
		if chance(t, 70) {
			lo, hi := intRange(pick(t, 8, 16, 32, 64))
			n = pick(t, lo, hi, lo/2, hi/2, 0, 1, -1)
			if chance(t, 50) {
				n += int64(uniform(t, 5)) - 2
			}
		}
		var in any = n
		beyond := false // outside of int64
		switch uniform(t, 11) {
		case 4, 5, 6:
			n &= math.MaxInt64
			switch uniform(t, 5) {
			case 0:
				in, n = uint8(n), n&0xff
			case 1:
				in, n = uint16(n), n&0xffff
			case 2:
				in, n = uint32(n), n&0xffffffff
			case 3:
				in = uint64(n)
			default:
				in = uint(n)
			}
		case 7:
			in = int16(n)
			n = int64(int16(n))
		case 8:
			if typ != "BIGINT" {
				break
			}
			beyond = true
			in = pick(t, any(uint64(math.MaxInt64)+1+rapid.Uint64Range(0, math.MaxInt64).Draw(t, "u")), any(float64(1<<63)), any(-9.3e18), any(1e19), any(math.Inf(1)), any(math.Inf(-1)), any(math.NaN()),
				any(float32(1e19)), any("9223372036854775808"), any("-9223372036854775809"), any("1e19"), any([]byte("9223372036854775808")))
		case 0:
			in = int(n)
		case 1:
			in = int32(n)
			n = int64(int32(n))
		case 2:
			in = int8(n)
			n = int64(int8(n))
		case 3:
			in = fmt.Sprint(n)
		}
		copied := c.Copy()
		err = c.SetValue(in)
		var want any
		bits := map[string]int{"TINYINT": 8, "SMALLINT": 16, "INT": 32, "INTEGER": 32, "BIGINT": 64}[typ]
		if bits > 0 {
			lo, hi := intRange(bits)
			if n < lo || hi < n || beyond {
				if err == nil {
					t.Fatalf("%s accepts %T(%v) as %v", typ, in, in, c.Value())
				}
				note(true, fmt.Sprintf("%s <- %T %v", typ, in, in), "out-of-range")
				return
			}
			switch bits {
			case 8:
				want = int8(n)
			case 16:
				want = int16(n)
			case 32:
				want = int32(n)
			default:
				want = n
			}
		} else {
			want = float64(n)
		}
		if err != nil {
			t.Fatalf("%s refuses %T(%v): %v", typ, in, in, err)
		}
		if !sameValue(c.Value(), want) || !c.HasValue() {
			t.Fatalf("%s of %T(%v) is %T(%v), want %T(%v)", typ, in, in, c.Value(), c.Value(), want, want)
		}
		if copied.HasValue() {
			t.Fatalf("setting a value changes an earlier copy: %v", copied.Value())
		}
		second := c.Copy()
		if err := second.SetValue(1); err != nil || !sameValue(c.Value(), want) {
			t.Fatalf("setting a copy changes the original: %v, want %v (%v)", c.Value(), want, err)
		}
		note(true, fmt.Sprintf("%s <- %T %v", typ, in, in), "in-range")
	})
}

// TestC18_History: columns that get schemas and values in any order always hold
// their latest value as the type of their latest schema.
func TestC18_History(t *testing.T) {
	prop(t, 30, func(t *rapid.T) {
		names := vals(distinct(t, 1+uniform(t, 4), genPlainName))
		types := []string{"TINYINT", "SMALLINT", "INT", "INTEGER", "BIGINT", "FLOAT", "DOUBLE", "VARCHAR"}
		type state struct {
			typ    string
			has    bool
			null   bool
			n      int64
			val    any
			broken bool // the last change was refused
		}
		convert := func(s *state) bool {
			bits := map[string]int{"TINYINT": 8, "SMALLINT": 16, "INT": 32, "INTEGER": 32, "BIGINT": 64}[s.typ]
			if !s.has || s.null {
				return true
			}
			if bits > 0 {
				if lo, hi := intRange(bits); s.n < lo || hi < s.n {
					return false
				}
			}
			switch s.typ {
			case "TINYINT":
				s.val = int8(s.n)
			case "SMALLINT":
				s.val = int16(s.n)
			case "INT", "INTEGER":
				s.val = int32(s.n)
			case "BIGINT":
				s.val = s.n
			case "FLOAT":
				s.val, s.n = float32(s.n), int64(float32(s.n))
			case "DOUBLE":
				s.val = float64(s.n)
			}
			return true
		}
		cols, want := query.NewColumns(), []*state{}
		for _, n := range names {
			cols = append(cols, query.NewColumnWithName(n))
			want = append(want, &state{})
		}
		defined := len(names)
		at := seq(defined) // the definition of each column
		if chance(t, 40) { // names again, as in the assignments of an UPDATE
			for i, n := 0, 1+uniform(t, 3); i < n; i++ {
				k := uniform(t, defined)
				at = append(at, k)
				names = append(names, randASCIICase(t, names[k]))
				cols = append(cols, query.NewColumnWithName(names[len(names)-1]))
				want = append(want, &state{})
			}
		}
		log := []string{}
		steps := 2 + uniform(t, 10)
		for i := 0; i < steps; i++ {
			switch uniform(t, 5) {
			case 0, 1: // a schema for all columns
				defs, ok := query.NewColumns(), true
				step := "schema"
				for _, k := range rapid.Permutation(seq(defined)).Draw(t, "order") {
					typ := pick(t, types...)
					c, err := buildDef(Col{Name: names[k], Type: typ})
					if err != nil {
						t.Fatal(err)
					}
					defs = append(defs, c)
					step += " " + names[k] + " " + typ
					for i := range want {
						if at[i] == k {
							want[i].typ = typ
						}
					}
				}
				log = append(log, step)
				describe(strings.Join(log, "; "))
				stop := len(names)
				for k := range names {
					if want[k].broken { // its value is what was refused before, and is set anew first
						if err := cols[k].SetValue(nil); err != nil {
							t.Fatalf("NULL is refused: %v", err)
						}
						*want[k] = state{typ: want[k].typ, has: true, null: true}
					}
				}
				for k := range names {
					if !convert(want[k]) {
						ok, stop = false, k
						want[k].broken = true
						break
					}
				}
				err := cols.SetSchema(query.NewSchemaWith("t", query.WithSchemaColumns(defs)))
				if ok != (err == nil) {
					t.Fatalf("SetSchema error %v, want success %v\nsteps: %s", err, ok, strings.Join(log, "; "))
				}
				if !ok { // the columns from the refused one on are not looked at any more
					note(stop > 0, strings.Join(log, "; "), "refused")
					return
				}
			case 2, 3: // a value for one column
				k := uniform(t, len(names))
				n := int64(uniform(t, 300)) - 150
				if chance(t, 40) {
					n = pick(t, int64(-32769), -32768, 32767, 32768, -2147483649, -2147483648, 2147483647, 2147483648, 16777217)
				}
				var v any = n
				switch uniform(t, 4) {
				case 0:
					v = int(n)
				case 1:
					v = fmt.Sprint(n)
				case 2:
					v = float64(n)
				}
				s := state{typ: want[k].typ, has: true, n: n, val: v}
				if chance(t, 15) {
					v = nil
					s = state{typ: s.typ, has: true, null: true}
				}
				log = append(log, fmt.Sprintf("%s = %T(%v)", names[k], v, v))
				describe(strings.Join(log, "; "))
				ok := convert(&s)
				err := cols[k].SetValue(v)
				if ok != (err == nil) {
					t.Fatalf("SetValue error %v, want success %v\nsteps: %s", err, ok, strings.Join(log, "; "))
				}
				s.broken = !ok
				*want[k] = s
			case 4: // continue with a copy, and change what was copied
				log = append(log, "copy")
				old := cols
				cols = cols.Copy()
				for _, c := range old {
					if chance(t, 50) {
						_ = c.SetValue(77)
					}
				}
			}
			for k, c := range cols {
				s := want[k]
				if s.broken {
					continue
				}
				if c.HasValue() != s.has || s.has && !s.null && !sameValue(c.Value(), s.val) || s.null && c.Value() != nil {
					t.Fatalf("column %s %s: has value %v, value %T(%v), want %v, %T(%v)\nsteps: %s", names[k], s.typ, c.HasValue(), c.Value(), c.Value(), s.has, s.val, s.val, strings.Join(log, "; "))
				}
				if s.typ != "" && c.DataType().String() != s.typ {
					t.Fatalf("column %s: data type %s, want %s\nsteps: %s", names[k], c.DataType(), s.typ, strings.Join(log, "; "))
				}
			}
		}
		note(len(log) > 3, strings.Join(log, "; "), "history")
	})
}

// TestC18_UnknownColumn: values of a column the schema does not have are refused.
func TestC18_UnknownColumn(t *testing.T) {
	prop(t, 20, func(t *rapid.T) {
		names := distinct(t, 2+uniform(t, 6), genPlainName)
		cols := query.NewColumns()
		for _, n := range names[1:] {
			c, _ := buildDef(Col{Name: n.Val, Type: "TEXT"})
			cols = append(cols, c)
		}
		row := query.NewColumns()
		for _, n := range rapid.Permutation(names).Draw(t, "perm") {
			row = append(row, query.NewColumnWithOptions(query.WithColumnName(n.Val), query.WithColumnLiteral(query.NewLiteralWith("x"))))
		}
		err := row.SetSchema(query.NewSchemaWith("t", query.WithSchemaColumns(cols)))
		if err == nil || !errors.Is(err, query.ErrNotFound) {
			t.Fatalf("value of an unknown column %s: error %v", names[0].Val, err)
		}
		note(true, js(vals(names)), "unknown-column")
	})
}

// TestC18_SetFloat: a FLOAT or DOUBLE column keeps a finite number as the nearest
// value of its type, and refuses one that its type has no finite value for.
func TestC18_SetFloat(t *testing.T) {
	prop(t, 40, func(t *rapid.T) {
		typ := pick(t, "FLOAT", "DOUBLE")
		c, err := buildDef(Col{Name: "c", Type: typ})
		if err != nil {
			t.Fatal(err)
		}
		f := pick(t, rapid.Float64().Draw(t, "f"), float64(uniform(t, 100000))/8, math.MaxFloat32, -math.MaxFloat32, math.MaxFloat32*1.001, -math.MaxFloat32*2, math.MaxFloat64, math.SmallestNonzeroFloat32, 1e300, -1e39, 16777217, 0.1)
		if math.IsNaN(f) {
			f = 0
		}
		var in any = f
		switch uniform(t, 3) {
		case 0:
			in = strconv.FormatFloat(f, pick(t, byte('g'), byte('e')), -1, 64)
		case 1:
			if g := float32(f); !math.IsInf(float64(g), 0) {
				in, f = g, float64(g)
			}
		}
		err = c.SetValue(in)
		var want any = f
		bad := false
		if typ == "FLOAT" {
			want = float32(f)
			bad = math.IsInf(float64(float32(f)), 0) && !math.IsInf(f, 0)
		}
		if bad != (err != nil) {
			t.Fatalf("%s <- %T(%v): value %v, error %v; out of range is %v", typ, in, in, c.Value(), err, bad)
		}
		also := want
		if s, ok := in.(string); ok && typ == "FLOAT" { // rounded once instead of twice
			if g, err := strconv.ParseFloat(s, 32); err == nil {
				also = float32(g)
			}
		}
		if !bad && !sameValue(c.Value(), want) && !sameValue(c.Value(), also) {
			t.Fatalf("%s of %T(%v) is %T(%v), want %T(%v)", typ, in, in, c.Value(), c.Value(), want, want)
		}
		note(f != 0, fmt.Sprintf("%s <- %T %v", typ, in, in), map[bool]string{true: "float-out-of-range", false: "float"}[bad])
	})
}
