package harness

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"pgregory.net/rapid"
)

var kindOf = map[string]query.StatementType{
	"CREATE DATABASE": query.CreateDatabaseStatement, "CREATE TABLE": query.CreateTableStatement, "CREATE INDEX": query.CreateIndexStatement,
	"INSERT": query.InsertStatement, "SELECT": query.SelectStatement, "UPDATE": query.UpdateStatement, "DELETE": query.DeleteStatement,
	"DROP DATABASE": query.DropDatabaseStatement, "DROP TABLE": query.DropTableStatement, "DROP INDEX": query.DropIndexStatement,
	"ALTER DATABASE": query.AlterDatabaseStatement, "ALTER TABLE": query.AlterTableStatement, "ALTER INDEX": query.AlterIndexStatement,
	"COPY": query.CopyStatement, "COMMIT": query.CommitStatement, "VACUUM": query.VacuumStatement, "TRUNCATE": query.TruncateStatement,
	"BEGIN": query.BeginStatement, "ROLLBACK": query.RollbackStatement, "USE": query.UseStatement,
}

// viewsOfColumns checks that everything a column list tells about itself agrees.
func viewsOfColumns(t *rapid.T, cols query.Columns, what string) {
	names := []string{}
	for i, c := range cols {
		names = append(names, c.Name())
		at, err := cols.ColumnAt(i)
		if err != nil || at != c {
			t.Fatalf("%s: column at %d is %v (%v)", what, i, at, err)
		}
		viewsOfColumn(t, c, what)
	}
	if cols.Len() != len(cols) || !sameStrings(cols.Names(), names) || !sameStrings(cols.ColumnNames(), names) || cols.NameString() != strings.Join(names, ", ") {
		t.Fatalf("%s: %d columns named %q, %q, %q; want %q", what, cols.Len(), cols.Names(), cols.ColumnNames(), cols.NameString(), names)
	}
	if len(cols.Columns()) != len(cols) || len(cols.Selectors()) != len(cols) {
		t.Fatalf("%s: %d columns, %d selectors of %d", what, len(cols.Columns()), len(cols.Selectors()), len(cols))
	}
	for i, s := range cols.Selectors() {
		if s.Name() != names[i] || cols.Columns()[i] != cols[i] {
			t.Fatalf("%s: selector %d is %s, column is %s", what, i, s.Name(), names[i])
		}
	}
	for _, i := range []int{-1, len(cols), len(cols) + 7} {
		if c, err := cols.ColumnAt(i); err == nil {
			t.Fatalf("%s: column at %d of %d is %v", what, i, len(cols), c)
		}
	}
	if want := len(cols) == 0 || len(cols) == 1 && names[0] == "*"; cols.IsAsterisk() != want {
		t.Fatalf("%s: IsAsterisk of %q is %v", what, names, cols.IsAsterisk())
	}
}

func viewsOfColumn(t *rapid.T, c query.Column, what string) {
	f, ok := c.Function()
	if ok != c.IsFunction() || ok != (f != nil) {
		t.Fatalf("%s: column %q: function %v, %v, IsFunction %v", what, c.Name(), f, ok, c.IsFunction())
	}
	if !c.IsName(c.Name()) || c.IsName(c.Name()+"x") || c.IsAsterisk() != (c.Name() == "*") {
		t.Fatalf("%s: column %q: IsName %v, IsAsterisk %v", what, c.Name(), c.IsName(c.Name()), c.IsAsterisk())
	}
	if d := c.Definition(); d == nil {
		if c.DataType() != query.UnknownData || c.DataTypeSize() > 0 || c.Constraint() != query.ConstraintNone || c.DefinitionString() != c.Name() {
			t.Fatalf("%s: column %q without a definition: %v %d %v %q", what, c.Name(), c.DataType(), c.DataTypeSize(), c.Constraint(), c.DefinitionString())
		}
	} else {
		if d.DataType() != c.DataType() || d.DataTypeSize() != c.DataTypeSize() || d.Constraint() != c.Constraint() {
			t.Fatalf("%s: column %q: %v(%d) defined as %v(%d)", what, c.Name(), c.DataType(), c.DataTypeSize(), d.DataType(), d.DataTypeSize())
		}
		if !strings.HasPrefix(c.DefinitionString(), c.Name()) || c.DataType() != query.UnknownData && !strings.Contains(c.DefinitionString(), " "+c.DataType().String()) ||
			c.DataTypeSize() > 0 && !strings.Contains(c.DefinitionString(), fmt.Sprintf("(%d)", c.DataTypeSize())) {
			t.Fatalf("%s: column %q %v(%d) is defined as %q", what, c.Name(), c.DataType(), c.DataTypeSize(), c.DefinitionString())
		}
	}
	if c.HasValue() {
		l := litOf(c.Value(), c.ValueType())
		want := l.Src()
		if l.Val == "NULL" && !l.Str {
			want = strings.ToUpper(c.ValueString())
		}
		if c.ValueString() != want {
			t.Fatalf("%s: value of %q is %v, written %q", what, c.Name(), l, c.ValueString())
		}
		if c.IsPlaceHolder() != (!l.Str && l.Val == "?") {
			t.Fatalf("%s: value of %q is %v, placeholder %v", what, c.Name(), l, c.IsPlaceHolder())
		}
	} else if c.Value() != nil || c.IsPlaceHolder() {
		t.Fatalf("%s: %q without a value is %v, placeholder %v", what, c.Name(), c.Value(), c.IsPlaceHolder())
	}
}

type tabled interface{ Table() query.Table }

func viewsOfTable(t *rapid.T, tbl query.Table, full, what string) {
	if tbl.FullTableName() != full || !tbl.IsFullTableName(randASCIICase(t, full)) || tbl.IsFullTableName(full+"x") {
		t.Fatalf("%s: full table name %q, want %q", what, tbl.FullTableName(), full)
	}
	if !tbl.IsTableName(randASCIICase(t, tbl.TableName())) || tbl.IsTableName(tbl.TableName()+"x") {
		t.Fatalf("%s: table %q: IsTableName", what, tbl.TableName())
	}
	if !tbl.IsSchemaName(tbl.SchemaName()) || tbl.IsSchemaName(tbl.SchemaName()+"x") {
		t.Fatalf("%s: schema %q: IsSchemaName", what, tbl.SchemaName())
	}
	plain, schema := tbl.TableName(), tbl.SchemaName()
	for _, other := range []string{"", plain, schema, schema + ".", "." + plain, "x" + full, "x." + full, plain + "." + schema, full + "." + plain, strings.TrimSuffix(full, full[len(full)-1:])} {
		if got := tbl.IsFullTableName(other); got != strings.EqualFold(other, full) {
			t.Fatalf("%s: table %q is fully named %q: %v", what, full, other, got)
		}
		if got := tbl.IsTableName(other); got != strings.EqualFold(other, plain) {
			t.Fatalf("%s: table %q is named %q: %v", what, plain, other, got)
		}
	}
	if got := tbl.IsTableName(full); got != strings.EqualFold(full, plain) {
		t.Fatalf("%s: table %q is named %q: %v", what, plain, full, got)
	}
	if s, ok := tbl.(fmt.Stringer); ok && what == "table" && s.String() != full {
		t.Fatalf("%s: table prints %q, want %q", what, s.String(), full)
	}
}

func viewsOfCondition(t *rapid.T, w query.Condition, stmt query.Statement) {
	text := stmt.String()
	if w == nil {
		t.Fatalf("%s: no condition object", text)
	}
	if w.HasConditions() != (w.Expr() != nil) || (w.String() != "") != w.HasConditions() {
		t.Fatalf("%s: condition %v, expression %v, text %q", text, w.HasConditions(), w.Expr(), w.String())
	}
	if w.HasConditions() {
		if w.Expr().String() != w.String() || !strings.Contains(text, " WHERE "+w.String()) {
			t.Fatalf("%s: condition %q, expression %q", text, w.String(), w.Expr().String())
		}
	}
	if h, ok := stmt.(interface{ HasConditions() bool }); ok && h.HasConditions() != w.HasConditions() {
		t.Fatalf("%s: statement has a condition: %v, %v", text, h.HasConditions(), w.HasConditions())
	}
	if h, ok := stmt.(interface{ Expr() query.Expr }); ok && h.Expr() != w.Expr() {
		t.Fatalf("%s: the statement has another expression: %v, %v", text, h.Expr(), w.Expr())
	}
}

// TestC34_Statements: the accessors of a parsed statement agree with each other.
func TestC34_Statements(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		g := genStmt(t, Opt{})
		text := g.T.canonical()
		describe(text)
		note(g.Rich, text, g.M.Kind)
		_, stmts, err := parseModels(text)
		if err != nil || len(stmts) != 1 {
			t.Fatalf("valid SQL is not parsed: %v\nSQL: %s", err, text)
		}
		s := stmts[0]
		if s.StatementType() != kindOf[g.M.Kind] || s.StatementType().String() != g.M.Kind {
			t.Fatalf("%s is of type %d %s", text, s.StatementType(), s.StatementType())
		}
		if first := strings.Fields(g.M.Kind)[0]; !strings.HasPrefix(s.String(), first) {
			t.Fatalf("%s prints %s", text, s.String())
		}
		switch x := s.(type) {
		case query.Select:
			viewsOfSelect(t, x, g.M)
		case query.Insert:
			for _, row := range x.Values() {
				viewsOfColumns(t, row, text)
			}
			viewsOfColumns(t, x.Columns(), text)
			if len(x.Values()) > 0 && !reflect.DeepEqual(x.Columns(), x.Values()[0]) {
				t.Fatalf("%s: columns %v, first row %v", text, x.Columns(), x.Values()[0])
			}
			if tbl, ok := s.(query.Table); ok {
				viewsOfTable(t, tbl, g.M.Name, text)
			}
		case query.CreateTable:
			viewsOfSchema(t, x.Schema(), text)
		}
		switch s.StatementType() {
		case query.UpdateStatement:
			x := s.(query.Update)
			viewsOfColumns(t, x.Columns(), text)
			viewsOfCondition(t, x.Where(), s)
		case query.DeleteStatement:
			viewsOfCondition(t, s.(query.Delete).Where(), s)
		}
		if x, ok := s.(tabled); ok && x.Table() != nil {
			viewsOfTable(t, x.Table(), g.M.Name, text)
			if n, ok := s.(interface{ TableName() string }); ok && n.TableName() != x.Table().TableName() {
				t.Fatalf("%s: table name %s of table %s", text, n.TableName(), x.Table().TableName())
			}
		}
		if x, ok := s.(interface{ From() query.Table }); ok {
			viewsOfTable(t, x.From(), g.M.Name, text)
		}
		if x, ok := s.(interface{ Tables() query.TableList }); ok {
			names := x.Tables().TableNames()
			if !sameStrings(names, g.M.Tables) {
				t.Fatalf("%s: tables %q, want %q", text, names, g.M.Tables)
			}
			for i, tbl := range x.Tables() {
				viewsOfTable(t, tbl, names[i], text)
			}
			if x.Tables().String() != strings.Join(names, ", ") {
				t.Fatalf("%s: tables %q print %q", text, names, x.Tables().String())
			}
		}
	})
}

func viewsOfSchema(t *rapid.T, s query.Schema, what string) {
	viewsOfColumns(t, s.Columns(), what)
	names := []string{}
	for _, i := range s.Indexes() {
		names = append(names, i.Name())
		viewsOfColumns(t, i.Columns(), what)
		if x, ok := i.(fmt.Stringer); ok && x.String() != i.Name() {
			t.Fatalf("%s: index %q prints %q", what, i.Name(), x.String())
		}
		if !strings.HasPrefix(i.DefinitionString(), i.Type().String()) || !strings.Contains(i.DefinitionString(), "("+strings.Join(i.Columns().Names(), ", ")+")") {
			t.Fatalf("%s: index %q is defined as %q", what, i.Name(), i.DefinitionString())
		}
	}
	if !sameStrings(s.Indexes().IndexNames(), names) || len(s.Indexes().Indexes()) != len(names) {
		t.Fatalf("%s: indexes %q, want %q", what, s.Indexes().IndexNames(), names)
	}
	if len(s.Selectors()) != len(s.Columns()) {
		t.Fatalf("%s: %d selectors of %d columns", what, len(s.Selectors()), len(s.Columns()))
	}
	if n, ok := s.(interface{ Name() string }); ok && n.Name() != s.TableName() {
		t.Fatalf("%s: schema name %q, table name %q", what, n.Name(), s.TableName())
	}
}

func viewsOfSelect(t *rapid.T, x query.Select, m Stmt) {
	text := x.String()
	aggr, exec, fns := false, false, 0
	names := []string{}
	for i, s := range x.Selectors() {
		f, ok := s.Function()
		if ok != s.IsFunction() || ok != m.Sels[i].Func {
			t.Fatalf("%s: selector %d: function %v, IsFunction %v", text, i, f, s.IsFunction())
		}
		if s.IsAsterisk() != (!ok && s.Name() == "*") {
			t.Fatalf("%s: selector %d %q: IsAsterisk %v", text, i, s.Name(), s.IsAsterisk())
		}
		names = append(names, s.String())
		if !ok {
			if s.String() != s.Name() || len(s.Arguments()) != 0 {
				t.Fatalf("%s: selector %d %q prints %q, arguments %v", text, i, s.Name(), s.String(), s.Arguments())
			}
			continue
		}
		fns++
		if !sameStrings(s.Arguments().Names(), m.Sels[i].Args) || !sameStrings(f.Arguments().Names(), m.Sels[i].Args) ||
			f.Arguments().String() != strings.Join(m.Sels[i].Args, ", ") || f.String() != f.Name()+"("+f.Arguments().String()+")" {
			t.Fatalf("%s: selector %d: arguments %q %q of %s, want %q", text, i, s.Arguments(), f.Arguments(), f.String(), m.Sels[i].Args)
		}
		if want := len(m.Sels[i].Args) == 0 || len(m.Sels[i].Args) == 1 && m.Sels[i].Args[0] == "*"; f.Arguments().IsAsterisk() != want {
			t.Fatalf("%s: selector %d: IsAsterisk of the arguments %q is %v", text, i, f.Arguments(), f.Arguments().IsAsterisk())
		}
		for _, a := range f.Arguments() {
			if a.Name() != a.String() || !a.IsName(a.String()) || a.IsName(a.String()+"x") || a.IsAsterisk() != (a.String() == "*") {
				t.Fatalf("%s: argument %q: name %q, asterisk %v", text, a, a.Name(), a.IsAsterisk())
			}
		}
		if f.IsAggregator() != f.IsType(fn.AggregateFunction) || f.IsType(f.Type()) != true {
			t.Fatalf("%s: function %s: type %v, aggregator %v", text, f, f.Type(), f.IsAggregator())
		}
		aggr = aggr || f.IsAggregator()
		exec = exec || f.Type() != fn.AggregateFunction && f.Type() != fn.UnknownFunctionType
	}
	if sels := x.Selectors(); sels.String() != strings.Join(names, ", ") || sels.HasFunction() != (fns > 0) || len(sels.Functions()) != fns ||
		sels.HasAggregator() != aggr || x.HasAggregator() != aggr || x.HasExecutor() != sels.HasExecutor() || x.HasExecutor() && !exec {
		t.Fatalf("%s: selectors %q: functions %d, aggregator %v/%v, executor %v/%v; want %d, %v, %v", text, sels.String(), len(sels.Functions()), sels.HasAggregator(), x.HasAggregator(), sels.HasExecutor(), x.HasExecutor(), fns, aggr, exec)
	}
	if want := len(m.Sels) == 1 && m.Sels[0].Name == "*"; x.Selectors().IsAsterisk() != want {
		t.Fatalf("%s: IsAsterisk %v", text, x.Selectors().IsAsterisk())
	}
	viewsOfCondition(t, x.Where(), x)
	for i, o := range x.OrderBy().Orders() {
		ty := o.Type()
		if ty.IsAsc() != o.IsAsc() || ty.IsDesc() != o.IsDesc() || ty.IsNone() != o.IsNone() || o.IsDesc() != m.Orders[i].Desc ||
			o.String() != o.ColumnName()+" "+ty.String() || query.NewOrderTypeWith(randASCIICase(t, ty.String())) != ty {
			t.Fatalf("%s: order %d: %q type %v", text, i, o.String(), ty)
		}
	}
	for _, part := range []string{x.OrderBy().String(), x.Limit().String(), x.GroupBy().String()} {
		if part != "" && !strings.Contains(text, " "+part) {
			t.Fatalf("%s: clause %q", text, part)
		}
	}
	if (x.GroupBy().String() != "") != (m.Group != "") || (x.OrderBy().String() != "") != (len(m.Orders) > 0) || (x.Limit().String() != "") != (m.Limit > 0 || m.Offset > 0) {
		t.Fatalf("%s: clauses %q %q %q", text, x.GroupBy(), x.OrderBy(), x.Limit())
	}
	for i, tbl := range x.From() {
		viewsOfTable(t, tbl, m.Tables[i], text)
		if !x.From().HasTable(randASCIICase(t, tbl.TableName())) || !x.From().HasTableName("no such table", tbl.TableName()) || x.From().HasTable("no such table") {
			t.Fatalf("%s: table %s is not found", text, tbl.TableName())
		}
	}
	if x.From().String() != strings.Join(m.Tables, ", ") {
		t.Fatalf("%s: tables print %q", text, x.From().String())
	}
}

// TestC34_Kinds: every kind of statement has its own number and name.
func TestC34_Kinds(t *testing.T) {
	prop(t, 5, func(t *rapid.T) {
		name := pick(t, sortedKeys(kindOf)...)
		if got := kindOf[name].String(); got != name {
			t.Fatalf("kind %s prints %q", name, got)
		}
		if n := query.StatementType(uniform(t, 256)); n.String() != "" && kindOf[n.String()] != n {
			t.Fatalf("kind %d prints %q", n, n.String())
		}
		note(true, name, "kind")
	})
}

// TestC34_Parts: what is set on a part of a statement is what it reports.
func TestC34_Parts(t *testing.T) {
	prop(t, 60, func(t *rapid.T) {
		switch uniform(t, 9) {
		case 8: // lists
			cols := query.Columns{}
			sels := query.Selectors{}
			names := []string{}
			for i, n := 0, size(t, 0, 4); i < n; i++ {
				name := genPlainName(t).Val
				if chance(t, 20) {
					name = "*"
				}
				names = append(names, name)
				c := query.NewColumnWithName(name)
				cols, sels = append(cols, c), append(sels, c)
			}
			viewsOfColumns(t, cols, fmt.Sprintf("list %q", names))
			want := len(names) == 0 || len(names) == 1 && names[0] == "*"
			if sels.IsAsterisk() != want || sels.Len() != len(names) || !sameStrings(sels.Names(), names) || len(sels.Columns()) != len(names) ||
				sels.HasFunction() || sels.HasAggregator() || sels.HasExecutor() || sels.String() != strings.Join(names, ", ") {
				t.Fatalf("selectors %q: %q, asterisk %v, %d columns", names, sels.Names(), sels.IsAsterisk(), len(sels.Columns()))
			}
			list := []fn.Argument{}
			for _, n := range names {
				list = append(list, fn.NewArgumentWith(n))
			}
			args := fn.NewArgumentsWith(list...)
			if args.IsAsterisk() != want || !sameStrings(args.Names(), names) || args.String() != strings.Join(names, ", ") {
				t.Fatalf("arguments %q: %q, %q, asterisk %v", names, args.Names(), args.String(), args.IsAsterisk())
			}
			// The caller keeps its list.
			f := fn.NewFunction(fn.WithFunctionName("F"), fn.WithFunctionArguments(list...))
			for i := range list {
				list[i] = fn.NewArgumentWith("overwritten")
			}
			if !sameStrings(args.Names(), names) || !sameStrings(f.Arguments().Names(), names) {
				t.Fatalf("arguments %q turn into %q and %q with the list of the caller", names, args.Names(), f.Arguments().Names())
			}
			for _, lists := range [][]query.Selector{query.NewSelectorsWith(sels...), query.NewSelectorsWithColums(cols...)} {
				for i, s := range lists {
					if s != sels[i] || len(lists) != len(names) {
						t.Fatalf("selectors %q: %v", names, lists)
					}
				}
			}
			note(len(names) != 1, js(names), "list")
		case 0: // constraints
			var c query.Constraint
			pk, nn, un := chance(t, 50), chance(t, 50), chance(t, 50)
			for _, b := range []struct {
				on bool
				c  query.Constraint
			}{{pk, query.PrimaryKeyConstraint}, {nn, query.NotNullConstraint}, {un, query.UniqueConstraint}} {
				if b.on {
					c |= b.c
				}
			}
			if c.IsPrimaryKey() != pk || c.IsNotNull() != nn || c.IsUnique() != un {
				t.Fatalf("constraint %d: %v %v %v, want %v %v %v", c, c.IsPrimaryKey(), c.IsNotNull(), c.IsUnique(), pk, nn, un)
			}
			single := map[query.Constraint]string{0: "", query.PrimaryKeyConstraint: "PRIMARY KEY", query.NotNullConstraint: "NOT NULL", query.UniqueConstraint: "UNIQUE"}
			if want, ok := single[c]; ok && c.String() != want {
				t.Fatalf("constraint %d prints %q, want %q", c, c.String(), want)
			}
			note(c != 0, fmt.Sprint("constraint", c), "constraint")
		case 1: // limits
			l := query.NewLimitWith(7, 9)
			a, b := pick(t, limits...), pick(t, limits...)
			if got := l.SetLimit(a); got.Limit() != a || got.Offset() != 7 || l.Limit() != a {
				t.Fatalf("limit %d: %v", a, got)
			}
			if got := l.SetOffset(b); got.Limit() != a || got.Offset() != b || l.Offset() != b {
				t.Fatalf("limit %d offset %d: %v", a, b, got)
			}
			if want := fmt.Sprintf("LIMIT %d OFFSET %d", a, b); l.String() != want {
				t.Fatalf("%q, want %q", l.String(), want)
			}
			if n := query.NewLimit(); n.Limit() != 0 || n.Offset() != 0 || n.String() != "" {
				t.Fatalf("new limit is %q", n)
			}
			note(true, l.String(), "limit")
		case 2: // grouping
			a, b := genPlainName(t).Val, genPlainName(t).Val
			g := query.NewGroupByWith(a)
			if g.ColumnName() != a || g.String() != "GROUP BY "+a {
				t.Fatalf("group by %s: %q", a, g)
			}
			if h := g.SetColumn(b); h.ColumnName() != b || g.ColumnName() != b || g.String() != "GROUP BY "+b {
				t.Fatalf("group by %s: %q", b, g)
			}
			if n := query.NewGroupBy(); n.ColumnName() != "" || n.String() != "" {
				t.Fatalf("new grouping is %q", n)
			}
			note(true, a+" "+b, "group-by")
		case 3: // ordering
			a := genPlainName(t).Val
			typ := pick(t, query.OrderAsc, query.OrderDesc, query.OrderNone)
			o := query.NewOrderWith(a, typ)
			if o.ColumnName() != a || o.Type() != typ || o.IsNone() != (typ == query.OrderNone) || o.IsAsc() != (typ == query.OrderAsc) || o.IsDesc() != (typ == query.OrderDesc) {
				t.Fatalf("order %s %v: %v", a, typ, o)
			}
			word := randASCIICase(t, pick(t, "ASC", "DESC", "ASCENDING", "DES", "D", "NONE", genPlainName(t).Val))
			want := map[string]query.OrderType{"ASC": query.OrderAsc, "DESC": query.OrderDesc}[strings.ToUpper(word)]
			if got := query.NewOrderTypeWith(word); got != want {
				t.Fatalf("order type %q is %v, want %v", word, got, want)
			}
			n := query.NewOrder()
			if !n.IsNone() || n.ColumnName() != "" || n.String() != "" {
				t.Fatalf("new order is %q", n)
			}
			note(true, a+word, "order")
		case 4: // literals
			g := genLit(t)
			var ty query.LiteralType = query.UnknownLiteral
			if g.Str {
				ty = query.StringLiteral
			}
			lit := func(v any) *query.Literal { return query.NewLiteralWith(v).SetValueType(ty) }
			l := query.NewLiteral()
			if chance(t, 50) {
				l = lit(g.Val)
			} else if l.SetValue(g.Val) != l || l.SetValueType(ty) != l {
				t.Fatalf("setting a literal gives another one")
			}
			if l.Value() != any(g.Val) || l.ValueType() != ty || !l.HasValue() || !l.Equal(g.Val) || l.Equal(g.Val+"x") {
				t.Fatalf("literal %v: %v %v, equal %v", g, l.Value(), l.ValueType(), l.Equal(g.Val))
			}
			star := lit("*")
			ask := lit("?")
			if star.IsAsterisk() == g.Str || ask.IsPlaceHolder() == g.Str || star.IsPlaceHolder() || ask.IsAsterisk() {
				t.Fatalf("asterisk %v, placeholder %v of a string: %v", star.IsAsterisk(), ask.IsPlaceHolder(), g.Str)
			}
			if l.String() != g.Src() || l.ValueString() != g.Src() {
				t.Fatalf("literal %v prints %q %q", g, l.String(), l.ValueString())
			}
			var none *query.Literal
			if none.HasValue() || none.Value() != nil || none.ValueString() != "" || none.Equal(1) || none.IsPlaceHolder() || none.IsAsterisk() {
				t.Fatalf("no literal has a value: %v", none.Value())
			}
			note(g.Str, js(g), "literal")
		case 5: // tables and databases
			n, s := genPlainName(t).Val, genPlainName(t).Val
			tbl := query.NewTableWith(n, query.WithTableSchema(s))
			if tbl.TableName() != n || tbl.SchemaName() != s {
				t.Fatalf("table %s.%s: %s, %s", s, n, tbl.SchemaName(), tbl.TableName())
			}
			viewsOfTable(t, tbl, s+"."+n, "table")
			viewsOfTable(t, query.NewTableWith(n), n, "table")
			db := query.NewDatabaseWith(n)
			if x, ok := db.(fmt.Stringer); db.DatabaseName() != n || ok && x.String() != n {
				t.Fatalf("database %s: %s", n, db.DatabaseName())
			}
			if p := query.NewBindParamWith(n); p.Name() != n || p.String() != n {
				t.Fatalf("bind parameter %s: %s %s", n, p.Name(), p)
			}
			on := chance(t, 50)
			if x := query.NewIfExistsWith(on); x.IfExists() != on || x.String() != map[bool]string{true: "IF EXISTS"}[on] {
				t.Fatalf("IF EXISTS %v: %v %q", on, x.IfExists(), x)
			}
			if x := query.NewIfNotExistsWith(on); x.IfNotExists() != on || x.String() != map[bool]string{true: "IF NOT EXISTS"}[on] {
				t.Fatalf("IF NOT EXISTS %v: %v %q", on, x.IfNotExists(), x)
			}
			note(true, s+"."+n, "table")
		case 6: // columns of a result set
			n := genPlainName(t).Val
			if chance(t, 10) {
				n = "*"
			}
			dt, err := query.NewDataTypeFrom(pick(t, dataTypes...))
			if err != nil {
				t.Fatal(err)
			}
			cons := pick(t, query.ConstraintNone, query.PrimaryKeyConstraint, query.NotNullConstraint, query.UniqueConstraint)
			c := resultset.NewColumn(resultset.WithColumnName(n), resultset.WithColumnType(dt), resultset.WithColumnConstraint(cons))
			if c.Name() != n || c.DataType() != dt || c.Constraint() != cons || c.IsFunction() || c.IsAsterisk() != (n == "*") || c.String() != n ||
				c.DefinitionString() != strings.TrimSpace(n+" "+dt.String()+" "+cons.String()) {
				t.Fatalf("column %s %v %v: %q %v %v %q", n, dt, cons, c.Name(), c.DataType(), c.Constraint(), c.DefinitionString())
			}
			if f, ok := c.Function(); ok || f != nil || len(c.Arguments()) != 0 {
				t.Fatalf("column %s has a function %v(%v)", n, f, c.Arguments())
			}
			qc := query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnData(query.NewDataDef(dt, uniform(t, 100))))
			from, err := resultset.NewColumnFrom(qc)
			if err != nil || from.Name() != n || from.DataType() != dt || from.Constraint() != qc.Constraint() {
				t.Fatalf("column from %s %v: %v (%v)", n, dt, from, err)
			}
			viewsOfColumn(t, qc, "column")
			note(cons != 0, n, "result-column")
		default: // functions of columns
			arg := genPlainName(t).Val
			name := pick(t, fnClasses...)
			f := fn.NewFunction(fn.WithFunctionName(name.name), fn.WithFunctionArguments(fn.NewArgumentWith(arg)))
			if chance(t, 50) {
				if name.typ == fn.AggregateFunction {
					ag, err := fn.NewAggregatorForName(name.name, fn.WithAggregatorArguments([]string{arg}))
					if err != nil {
						t.Fatal(err)
					}
					f = fn.NewFunction(fn.WithFunctionAggregator(ag), fn.WithFunctionArguments(fn.NewArgumentWith(arg)))
					if x, err := f.Aggregator(); err != nil || x != ag {
						t.Fatalf("aggregator of %s: %v (%v)", f, x, err)
					}
				} else {
					ex, err := fn.NewExecutorForName(name.name, fn.WithExecutorArguments([]string{arg}))
					if err != nil {
						t.Fatal(err)
					}
					if !sameStrings(ex.Arguments(), []string{arg}) {
						t.Fatalf("executor of %s has arguments %q", name.name, ex.Arguments())
					}
					f = fn.NewFunction(fn.WithFunctionExecutor(ex), fn.WithFunctionArguments(fn.NewArgumentWith(arg)))
					if x, err := f.Executor(); err != nil || x != ex {
						t.Fatalf("executor of %s: %v (%v)", f, x, err)
					}
				}
			}
			if f.Name() != name.name || f.Type() != name.typ || !f.IsFunction() || f.IsAsterisk() || f.IsAggregator() != (name.typ == fn.AggregateFunction) {
				t.Fatalf("function %s: %s %v", name.name, f.Name(), f.Type())
			}
			if x, ok := f.Function(); !ok || x != f {
				t.Fatalf("function %s is not its own function", f)
			}
			col := query.NewColumnWithOptions(query.WithColumnName("c"), query.WithColumnFunction(f))
			if x, ok := col.Function(); !ok || x != f || !col.IsFunction() {
				t.Fatalf("column with function %s has %v", f, x)
			}
			rc := resultset.NewColumn(resultset.WithColumnName("c"), resultset.WithColumnFunction(f))
			if x, ok := rc.Function(); !ok || x != f || !rc.IsFunction() || !sameStrings(rc.Arguments().Names(), []string{arg}) {
				t.Fatalf("result column with function %s has %v(%v)", f, x, rc.Arguments())
			}
			note(true, f.String(), "function")
		}
	})
}

// TestC34_GroupKeys: a list of grouping columns is written as one text and read back.
func TestC34_GroupKeys(t *testing.T) {
	prop(t, 20, func(t *rapid.T) {
		names := vals(distinct(t, size(t, 0, 8), genPlainName))
		set := fn.NewGroupBySet(names...)
		if got := fn.NewGroupBysFromGroupBySet(set); !sameStrings(got, names) {
			t.Fatalf("groups %q written %q read %q", names, set, got)
		}
		keys, texts := []any{}, []string{}
		for range names {
			k := uniform(t, 1000)
			var v any = k
			if chance(t, 50) {
				v = fmt.Sprint(k)
			}
			keys, texts = append(keys, v), append(texts, fmt.Sprint(k))
		}
		got, err := fn.NewGroupBySetKey(names, keys)
		if err != nil || !sameStrings(fn.NewGroupBysFromGroupBySet(got), texts) {
			t.Fatalf("key of %v is %q (%v)", keys, got, err)
		}
		if k, err := fn.NewGroupBySetKey(names, append(keys, 1)); err == nil {
			t.Fatalf("key of %v for %q is %q", append(keys, 1), names, k)
		}
		note(len(names) > 1, set, "group-keys")
	})
}

func sortedKeys[V any](m map[string]V) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
