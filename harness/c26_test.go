package harness

import (
	"errors"
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"github.com/cybergarage/go-sqlparser/sql/system"
	"pgregory.net/rapid"
)

// C26: the description of a database's columns loses and invents nothing.

func infoName(t *rapid.T) string {
	switch uniform(t, 4) {
	case 0:
		s := stringValue(t)
		if s == "" {
			return "x"
		}
		return s
	default:
		return plainName(t)
	}
}

func infoNames(t *rapid.T, max int) []string {
	n := size(t, 0, max)
	out := make([]string, n)
	for i := range out {
		out[i] = infoName(t)
	}
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// wantColumnsSelect is the SELECT over information_schema.COLUMNS asking for the
// given database and tables.
func checkColumnsSelect(t *rapid.T, sel sql.Select, db string, tables []string, in bool) {
	t.Helper()
	if sel == nil {
		t.Fatalf("no statement for %q %q", db, tables)
	}
	if !system.IsSchemaColumsQuery(sel) {
		t.Fatalf("%q is not recognised as a query of the schema columns", sel.String())
	}
	if !sel.Selectors().IsAsterisk() {
		t.Fatalf("%q does not select every column", sel.String())
	}
	want := "SELECT * FROM information_schema.COLUMNS"
	conds := []string{}
	if db != "" {
		conds = append(conds, "TABLE_SCHEMA = "+quote(db))
	}
	switch {
	case len(tables) == 1:
		conds = append(conds, "TABLE_NAME = "+quote(tables[0]))
	case len(tables) > 1 && in:
		qs := []string{}
		for _, tb := range tables {
			qs = append(qs, quote(tb))
		}
		conds = append(conds, "TABLE_NAME IN ("+strings.Join(qs, ",")+")")
	case len(tables) > 1:
		qs := []string{}
		for _, tb := range tables {
			qs = append(qs, "TABLE_NAME = "+quote(tb))
		}
		conds = append(conds, strings.Join(qs, " OR "))
	}
	if len(conds) > 0 {
		want += " WHERE " + strings.Join(conds, " AND ")
	}
	// Compared as token lists: the white space outside the literals is free.
	if got := sel.String(); squeeze(got) != squeeze(want) {
		t.Fatalf("database %q, tables %q: statement\n%s\nwant\n%s", db, tables, got, want)
	}
}

// squeeze drops the white space outside of quotes.
func squeeze(s string) string {
	var sb strings.Builder
	in := false
	for _, r := range s {
		if r == '\'' {
			in = !in
		}
		if !in && (r == ' ' || r == '\n' || r == '\t') {
			continue
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

func TestC26_Statement(t *testing.T) {
	prop(t, 60, func(t *rapid.T) {
		db := ""
		if chance(t, 50) {
			db = infoName(t)
		}
		tables := infoNames(t, 8)
		key := fmt.Sprintf("statement db=%q tables=%q", db, tables)
		describe(key)
		given := append([]string{}, tables...)
		stmt, err := system.NewSchemaColumnsStatement(
			system.WithSchemaColumnsStatementDatabaseName(db),
			system.WithSchemaColumnsStatementTableNames(given))
		mixed := db != "" && len(tables) > 1
		note(db != "" || len(tables) > 0, key, fmt.Sprintf("db=%v/tables=%d", db != "", min(len(tables), 3)))
		if err != nil {
			if mixed {
				// Known finding: the grammar has no condition for this pair.
				return
			}
			t.Fatalf("%s: %v", key, err)
		}
		if stmt.DatabaseName() != db || !sameStrings(stmt.TableNames(), tables) {
			t.Fatalf("%s: reported as %q %q", key, stmt.DatabaseName(), stmt.TableNames())
		}
		checkColumnsSelect(t, stmt.Statement(), db, tables, true)
		if len(tables) > 1 {
			return
		}
		// The statement describes itself: by the value and by its text.
		for k, sel := range []sql.Select{stmt.Statement(), reparseSelect(t, stmt.Statement())} {
			back, err := system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(sel))
			if err != nil {
				t.Fatalf("%s: (%d) %q: %v", key, k, sel.String(), err)
			}
			if back.DatabaseName() != db || !sameStrings(back.TableNames(), tables) {
				t.Fatalf("%s: (%d) %q read as %q %q", key, k, sel.String(), back.DatabaseName(), back.TableNames())
			}
			if back.Statement() != sel {
				t.Fatalf("%s: the statement was replaced", key)
			}
		}
	})
}

func reparseSelect(t *rapid.T, s sql.Select) sql.Select {
	t.Helper()
	stmts, err := sql.NewParser().ParseString(s.String())
	if err != nil || len(stmts) != 1 {
		t.Fatalf("%q does not parse back: %v %v", s.String(), stmts, err)
	}
	sel, ok := stmts[0].(sql.Select)
	if !ok {
		t.Fatalf("%q parses back as a %T", s.String(), stmts[0])
	}
	return sel
}

func TestC26_TableNames(t *testing.T) {
	prop(t, 40, func(t *rapid.T) {
		tables := infoNames(t, 8)
		key := fmt.Sprintf("query of tables %q", tables)
		describe(key)
		sel, err := system.NewSchemaColumnsQueryFromTableNames(append([]string{}, tables...))
		note(len(tables) > 0, key, fmt.Sprintf("query/%d", min(len(tables), 3)))
		if err != nil {
			t.Fatalf("%s: %v", key, err)
		}
		// One condition per table; an IN list is the same condition.
		if system.IsSchemaColumsQuery(sel) && strings.Contains(squeezeOutside(sel.String()), "IN(") {
			checkColumnsSelect(t, sel, "", tables, true)
		} else {
			checkColumnsSelect(t, sel, "", tables, false)
		}
	})
}

// squeezeOutside is squeeze without the text in quotes.
func squeezeOutside(s string) string {
	var sb strings.Builder
	in := false
	for _, r := range s {
		if r == '\'' {
			in = !in
			continue
		}
		if in || r == ' ' {
			continue
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

// Statements written or built by a client: the conditions in any order, case
// and nesting.
func TestC26_Written(t *testing.T) {
	prop(t, 60, func(t *rapid.T) {
		db, tables := "", []string{}
		invalid := false
		conds := []*Cond{}
		built := chance(t, 50)
		max := 2
		if built {
			max = 6
		}
		for i, n := 0, uniform(t, max+1); i < n; i++ {
			v := infoName(t)
			c := &Cond{Op: "=", Lit: &Lit{v, true}}
			switch uniform(t, 17) {
			case 0, 1, 2, 8, 9, 10:
				c.Col = randCase(t, "TABLE_SCHEMA")
				switch {
				case db == "":
					db = v
				case chance(t, 50): // the same again
					c.Lit.Val = db
				default: // no column is in two databases
					invalid = invalid || v != db
				}
			case 3, 4, 5, 11, 12, 13:
				tables, c.Col = append(tables, v), randCase(t, "TABLE_NAME")
			case 6:
				invalid = true // not understood
				c.Col = pick(t, "TABLE_CATALOG", "COLUMN_NAME", "DATA_TYPE", "TABLE_NAMES", "x")
			case 7: // nothing is equal to NULL
				invalid = true
				c.Col, c.Lit = randCase(t, pick(t, "TABLE_NAME", "TABLE_SCHEMA")), &Lit{randCase(t, "NULL"), false}
			default:
				invalid = true
				c.Col, c.Op = pick(t, "TABLE_NAME", "TABLE_SCHEMA"), pick(t, "<", ">", "<=", ">=", "!=")
			}
			conds = append(conds, c)
		}
		var join func(cs []*Cond) *Cond
		join = func(cs []*Cond) *Cond {
			if len(cs) == 1 {
				return cs[0]
			}
			k := 1 + uniform(t, len(cs)-1)
			op := "AND"
			if chance(t, 8) {
				op, invalid = "OR", true
			}
			return &Cond{Op: op, Left: join(cs[:k]), Right: join(cs[k:])}
		}
		var where *Cond
		if len(conds) > 0 {
			where = join(conds)
		}
		table := randCase(t, "information_schema") + "." + randCase(t, "COLUMNS")
		var sel sql.Select
		key := table + " " + js(where)
		describe(key)
		if built {
			sel = query.NewSelectWith(query.NewSelectors(), query.NewTablesWith(buildTable(t, table)), buildWhere(where))
		} else {
			src := "SELECT * FROM " + table
			if where != nil {
				src += " WHERE " + condText(where)
			}
			key = src
			stmts, err := sql.NewParser().ParseString(src)
			if err != nil || len(stmts) != 1 {
				t.Fatalf("%q: %v %v", src, stmts, err)
			}
			s, ok := stmts[0].(sql.Select)
			if !ok {
				t.Fatalf("%q: %T", src, stmts[0])
			}
			sel = s
		}
		if !system.IsSchemaColumsQuery(sel) {
			t.Fatalf("%s is not recognised as a query of the schema columns", key)
		}
		got, err := system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(sel))
		note(len(conds) > 0, key, fmt.Sprintf("written/%d/built=%v/invalid=%v", len(conds), built, invalid))
		if invalid {
			if !errors.Is(err, system.ErrInvalid) {
				t.Fatalf("%s accepted as %v %v", key, got, err)
			}
			return
		}
		if err != nil {
			t.Fatalf("%s: %v", key, err)
		}
		if got.DatabaseName() != db || !sameStrings(got.TableNames(), tables) {
			t.Fatalf("%s read as %q %q, want %q %q", key, got.DatabaseName(), got.TableNames(), db, tables)
		}
	})
}

func condText(c *Cond) string {
	if c.Left != nil {
		return condText(c.Left) + " " + c.Op + " " + condText(c.Right)
	}
	return c.Col + " " + c.Op + " " + c.Lit.Src()
}

// Other queries are not mistaken for queries of the schema columns.
func TestC26_Other(t *testing.T) {
	prop(t, 40, func(t *rapid.T) {
		want := false
		var from string
		switch uniform(t, 6) {
		case 0:
			from, want = randCase(t, "information_schema")+"."+randCase(t, "COLUMNS"), true
		case 1:
			from = pick(t, "COLUMNS", "information_schema.TABLES", "information_schema.\"COLUMN\"", "information_schema.COLUMNS_", "information_schem.COLUMNS", "x.COLUMNS", "information_schema")
		case 2:
			from = "information_schema.COLUMNS, " + plainName(t)
		case 3:
			from = plainName(t) + ", information_schema.COLUMNS"
		case 4:
			from = plainName(t) + "." + plainName(t)
		default:
			from = plainName(t)
		}
		if strings.EqualFold(from, "information_schema.COLUMNS") {
			want = true
		}
		src := "SELECT * FROM " + from
		describe(src)
		note(strings.Contains(strings.ToUpper(src), "COLUMN") || strings.Contains(from, "."), src, fmt.Sprintf("other/%v", want))
		stmts, err := sql.NewParser().ParseString(src)
		if err != nil || len(stmts) != 1 {
			t.Fatalf("%q: %v %v", src, stmts, err)
		}
		if got := system.IsSchemaColumsQuery(stmts[0].(sql.Select)); got != want {
			t.Fatalf("%q: query of the schema columns %v, want %v", src, got, want)
		}
	})
}

// The rows made from schemas, and the columns read back from them.
func TestC26_Columns(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		type col struct{ table, name, typ string }
		want := []col{}
		schemas := []query.Schema{}
		for i, n := 0, size(t, 0, 6); i < n; i++ {
			table := infoName(t)
			cols := query.NewColumns()
			for _, nm := range distinct(t, size(t, 0, 9), genPlainName) {
				dt := pick(t, dataTypes...)
				def, err := query.NewDataDefFrom(dt, -1)
				if err != nil {
					t.Fatal(err)
				}
				cols = append(cols, query.NewColumnWithOptions(query.WithColumnName(nm.Val), query.WithColumnData(def)))
				want = append(want, col{table, nm.Val, dt})
			}
			schemas = append(schemas, query.NewSchemaWith(table, query.WithSchemaColumns(cols)))
		}
		key := fmt.Sprintf("%q", want)
		describe(key)
		note(len(want) > 1, key, fmt.Sprintf("columns/%d", min(len(want), 10)))
		rs, err := system.NewSchemaColumnsResultSetFromSchemas(schemas)
		if err != nil {
			t.Fatalf("%s: %v", key, err)
		}
		got, err := system.NewSchemaColumnsResultSetFromResultSet(rs)
		if err != nil {
			t.Fatalf("%s: %v", key, err)
		}
		cols := got.Columns()
		if len(cols) != len(want) {
			t.Fatalf("%s: %d columns of %d", key, len(cols), len(want))
		}
		first := map[string]int{}
		for i, w := range want {
			c := cols[i]
			if c.Table() != w.table || c.Name() != w.name || c.DataType().String() != w.typ || c.Catalog() != "def" {
				t.Fatalf("%s: column %d is %q.%q.%q %q", key, i, c.Catalog(), c.Table(), c.Name(), c.DataType().String())
			}
			u := strings.ToUpper(w.name)
			if _, ok := first[u]; !ok {
				first[u] = i
			}
		}
		for _, w := range want {
			c, err := got.LookupColumn(randCase(t, w.name))
			if err != nil || c != cols[first[strings.ToUpper(w.name)]] {
				t.Fatalf("%s: looking up %q: %v %v", key, w.name, c, err)
			}
		}
		miss := plainName(t)
		if _, ok := first[strings.ToUpper(miss)]; !ok {
			if c, err := got.LookupColumn(miss); !errors.Is(err, system.ErrNotFound) {
				t.Fatalf("%s: looking up the missing %q: %v %v", key, miss, c, err)
			}
		}
	})
}

// The columns read from rows of another server's answer: every row is a column
// with exactly its cells, and a row that is no description of a column is an error.
func TestC26_ReadBack(t *testing.T) {
	prop(t, 40, func(t *rapid.T) {
		fields := []string{system.SchemaColumnsCatalog, system.SchemaColumnsSchema, system.SchemaColumnsTableName, system.SchemaColumnsColumnName, system.SchemaColumnsDataType}
		names := rapid.Permutation(append(append([]string{}, fields...), pick(t, []string{"ORDINAL_POSITION"}, []string{}, []string{"IS_NULLABLE", "EXTRA"})...)).Draw(t, "order")
		rows := []resultset.Row{}
		want := []map[string]any{}
		byValues := chance(t, 50)
		n := size(t, 1, 6)
		bad := -1
		what := "good"
		if chance(t, 40) {
			bad = uniform(t, n)
			what = pick(t, "type", "missing")
			if what == "missing" { // the answer has no such column
				gone := pick(t, fields...)
				names = slices.DeleteFunc(names, func(n string) bool { return n == gone })
			}
		}
		schema := plainSchema(names...)
		for i := 0; i < n; i++ {
			obj := map[string]any{}
			for _, f := range names {
				obj[f] = stringValue(t)
			}
			if slices.Contains(names, system.SchemaColumnsDataType) {
				obj[system.SchemaColumnsDataType] = randCase(t, pick(t, dataTypes...))
			}
			if i == bad && what == "type" {
				obj[system.SchemaColumnsDataType] = pick(t, any("NOTYPE"), any("INTT"), any(7), any(nil))
			}
			want = append(want, obj)
			if byValues {
				values := []any{}
				for _, f := range names {
					values = append(values, obj[f])
				}
				rows = append(rows, resultset.NewRow(resultset.WithRowSchema(schema), resultset.WithRowValues(values)))
			} else {
				rows = append(rows, resultset.NewRow(resultset.WithRowObject(obj)))
			}
		}
		key := fmt.Sprintf("%s %d %v", what, bad, want)
		describe(key)
		got, err := system.NewSchemaColumnsResultSetFromResultSet(resultset.NewResultSet(resultset.WithResultSetSchema(schema), resultset.WithResultSetRows(rows)))
		note(n > 1, key, "read-back-"+what)
		if bad >= 0 {
			if err == nil {
				t.Fatalf("%s: accepted", key)
			}
			return
		}
		if err != nil || len(got.Columns()) != n {
			t.Fatalf("%s: %v, %v", key, got, err)
		}
		for i, c := range got.Columns() {
			w := want[i]
			if c.Catalog() != w[fields[0]] || c.Schema() != w[fields[1]] || c.Table() != w[fields[2]] || c.Name() != w[fields[3]] || c.DataType().String() != strings.ToUpper(w[fields[4]].(string)) {
				t.Fatalf("%s: column %d is %q.%q.%q.%q %s", key, i, c.Catalog(), c.Schema(), c.Table(), c.Name(), c.DataType())
			}
		}
	})
}
