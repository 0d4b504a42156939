package harness

import (
	"errors"
	"fmt"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/cybergarage/go-sqlparser/sql"
	sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/util"
	ustrings "github.com/cybergarage/go-sqlparser/sql/util/strings"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------- C29: errors

var sentinels = []error{
	sqlerrors.ErrNotImplemented, sqlerrors.ErrNotSupported, sqlerrors.ErrNotExist, sqlerrors.ErrExist, sqlerrors.ErrNotEqual,
	sqlerrors.ErrInvalid, sqlerrors.ErrNotFound, sqlerrors.ErrNoRows,
}

// TestC29_Sentinels: an error made for an object is recognised as its kind, as
// no other kind, and names the object.
func TestC29_Sentinels(t *testing.T) {
	kinds := []struct {
		name string
		mk   func(string) error
		want error
	}{
		{"NotImplemented", sqlerrors.NewErrNotImplemented, sqlerrors.ErrNotImplemented},
		{"NotExist", sqlerrors.NewErrNotExist, sqlerrors.ErrNotExist},
		{"Exist", sqlerrors.NewErrExist, sqlerrors.ErrExist},
		{"NotSupported", sqlerrors.NewErrNotSupported, sqlerrors.ErrNotSupported},
		{"DatabaseNotExist", sqlerrors.NewErrDatabaseNotExist, sqlerrors.ErrNotExist},
		{"TableNotExist", sqlerrors.NewErrTableNotExist, sqlerrors.ErrNotExist},
		{"DatabaseExist", sqlerrors.NewErrDatabaseExist, sqlerrors.ErrExist},
		{"TableExist", sqlerrors.NewErrTableExist, sqlerrors.ErrExist},
		{"ColumnNotExist", func(s string) error { return sqlerrors.NewErrColumnNotExist(s) }, sqlerrors.ErrNotExist},
		{"ColumnValueNotExist", func(s string) error { return sqlerrors.NewErrColumnValueNotExist(s) }, sqlerrors.ErrNotExist},
		{"GroupByColumnValueNotFound", func(s string) error { return sqlerrors.NewErrGroupByColumnValueNotFound(s) }, sqlerrors.ErrNotFound},
		{"PreparedStatementNotExist", sqlerrors.NewErrPreparedStatementNotExist, sqlerrors.ErrNotExist},
		{"PreparedPortalNotExist", sqlerrors.NewErrPreparedPortalNotExist, sqlerrors.ErrNotExist},
		{"MultiplePreparedStatementNotSupported", sqlerrors.NewErrMultiplePreparedStatementNotSupported, sqlerrors.ErrNotSupported},
		{"MultipleTableNotSupported", sqlerrors.NewErrMultipleTableNotSupported, sqlerrors.ErrNotSupported},
	}
	prop(t, 100, func(t *rapid.T) {
		k := pick(t, kinds...)
		arg := stringValue(t)
		if chance(t, 30) {
			arg = pick(t, "%s", "%v %d", "%", "%w", "100%", "%%", "%!s(MISSING)", "a%20b")
		}
		err := k.mk(arg)
		key := fmt.Sprintf("%s(%q)", k.name, arg)
		note(arg != "", key, k.name)
		if err == nil || !strings.Contains(err.Error(), arg) {
			t.Fatalf("%s: %v does not name the object", key, err)
		}
		// Also through the wrapping of a caller.
		outer := fmt.Errorf("while executing: %w", err)
		for _, s := range sentinels {
			want := s == k.want
			if errors.Is(err, s) != want || errors.Is(outer, s) != want {
				t.Fatalf("%s: is %q: %v, want %v", key, s, errors.Is(err, s), want)
			}
		}
		a, b := uniform(t, 1000), 1000+uniform(t, 1000)
		if chance(t, 50) {
			a, b = b, a
		}
		ne := sqlerrors.NewErrColumnsNotEqual(a, b)
		for _, s := range sentinels {
			if errors.Is(ne, s) != (s == sqlerrors.ErrNotEqual) {
				t.Fatalf("columns not equal: %v is %q: %v", ne, s, errors.Is(ne, s))
			}
		}
		if !strings.Contains(ne.Error(), fmt.Sprint(a)) || !strings.Contains(ne.Error(), fmt.Sprint(b)) {
			t.Fatalf("%v does not name %d and %d", ne, a, b)
		}
		// The numbers are told in the order in which they were given.
		if got := regexp.MustCompile(`[0-9]+`).FindAllString(ne.Error(), -1); len(got) != 2 || got[0] != fmt.Sprint(a) || got[1] != fmt.Sprint(b) {
			t.Fatalf("%v does not name %d and then %d", ne, a, b)
		}
		if nt := sqlerrors.NewErrNoTable(arg); nt == nil || !strings.Contains(nt.Error(), arg) {
			t.Fatalf("%v does not name %q", nt, arg)
		}
	})
}

// TestC29_Statements: the errors about a statement are of their kind and show the statement.
func TestC29_Statements(t *testing.T) {
	all := []error{query.ErrInvalid, query.ErrNotFound, query.ErrNotSupported, query.ErrNotSet}
	prop(t, 30, func(t *rapid.T) {
		g := genStmt(t, Opt{Plain: true, NoRaw: true})
		s, err := build(t, g.M)
		if err != nil {
			t.Fatalf("statement is not built: %v\n%s", err, js(g.M))
		}
		invalid := chance(t, 50)
		got, want := query.NewErrStatementNotSupported(s), query.ErrNotSupported
		if invalid {
			got, want = query.NewErrStatementInvalid(s), query.ErrInvalid
		}
		if got == nil || !strings.Contains(got.Error(), s.String()) {
			t.Fatalf("%v does not show %s", got, s)
		}
		for _, e := range all {
			if errors.Is(got, e) != (e == want) {
				t.Fatalf("%v is %q: %v", got, e, errors.Is(got, e))
			}
		}
		note(g.Rich, got.Error(), "statement")
	})
}

// TestC29_States: a SQLSTATE is described as what it is, and anything else is unknown.
func TestC29_States(t *testing.T) {
	known, knownClass := map[string]string{}, map[string]string{}
	for _, c := range stateCodes {
		known[c.code] = c.desc
	}
	for _, c := range stateClasses {
		knownClass[c.class] = c.desc
	}
	prop(t, 100, func(t *rapid.T) {
		if chance(t, 50) {
			c := pick(t, stateCodes...)
			note(true, c.code, "code")
			if string(c.got) != c.code {
				t.Fatalf("the code of %q is %q, want %q", c.desc, string(c.got), c.code)
			}
			if d := sqlerrors.Code(c.code).String(); d != c.desc {
				t.Fatalf("code %s is described as %q, want %q", c.code, d, c.desc)
			}
			cl := sqlerrors.Class(c.code[:2]).String()
			if cl != knownClass[c.code[:2]] {
				t.Fatalf("class %s is described as %q, want %q", c.code[:2], cl, knownClass[c.code[:2]])
			}
			return
		}
		c := pick(t, stateClasses...)
		if string(c.got) != c.class || c.got.String() != c.desc {
			t.Fatalf("class %s (%q) is described as %q, want %q", c.class, string(c.got), c.got.String(), c.desc)
		}
		s := rapid.StringMatching(`[0-9A-Z]{5}`).Draw(t, "s")
		if chance(t, 50) {
			b := []byte(pick(t, stateCodes...).code)
			b[uniform(t, 5)] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZab"[uniform(t, 38)]
			s = string(b)
		}
		want, ok := known[s]
		if !ok {
			want = "Unknown Code"
		}
		note(!ok, s, "other")
		if d := sqlerrors.Code(s).String(); d != want {
			t.Fatalf("code %s is described as %q, want %q", s, d, want)
		}
		want, ok = knownClass[s[:2]]
		if !ok {
			want = "Unknown Class"
		}
		if d := sqlerrors.Class(s[:2]).String(); d != want {
			t.Fatalf("class %s is described as %q, want %q", s[:2], d, want)
		}
	})
}

// ------------------------------------------------------------- C30: lookups

// TestC30_Columns: column, index and table lists find what they hold, first
// match first, in any case, and refuse the rest.
func TestC30_Columns(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		n := size(t, 0, 12)
		names := make([]string, n)
		cols := make([]query.Column, n)
		idxs := query.NewIndexes()
		for i := range names {
			if i > 0 && chance(t, 20) {
				names[i] = randCase(t, names[uniform(t, i)])
			} else {
				names[i] = genName(t).Val
			}
			cols[i] = query.NewColumnWithName(names[i])
			idxs = append(idxs, query.NewIndexWith(names[i], pick(t, query.SecondaryIndex, query.SecondaryIndex, query.PrimaryIndex, query.UnknownIndex), query.NewColumnsWith(cols[:i]...)))
		}
		list := query.NewColumnsWith(cols...)
		key := fmt.Sprintf("%q", names)
		describe(key)
		if list.Len() != n || !sameStrings(list.Names(), names) || !sameStrings(list.ColumnNames(), names) || !sameStrings(idxs.IndexNames(), names) || !sameStrings(list.Selectors().Names(), names) {
			t.Fatalf("%s: %d columns %q, indexes %q, selectors %q", key, list.Len(), list.Names(), idxs.IndexNames(), list.Selectors().Names())
		}
		if got := list.NameString(); got != strings.Join(names, ", ") {
			t.Fatalf("%s: printed as %q", key, got)
		}
		for i := -2; i < n+2; i++ {
			c, err := list.ColumnAt(i)
			if i < 0 || i >= n {
				if !errors.Is(err, query.ErrNotFound) || c != nil {
					t.Fatalf("%s: column %d: %v %v", key, i, c, err)
				}
			} else if err != nil || c != cols[i] {
				t.Fatalf("%s: column %d: %v %v", key, i, c, err)
			}
		}
		asks := append([]string{}, names...)
		for k := 0; k < 4; k++ {
			asks = append(asks, genName(t).Val)
		}
		if n > 0 {
			x := names[uniform(t, n)]
			asks = append(asks, x+"x", x[:len(x)-1], " "+x, x+" ", "")
		}
		hits := 0
		asks = append(asks, specialNames...)
		asks = append(asks, strings.Join(names, "_"), strings.Join(names, ","), strings.Join(names, ", "))
		for _, a := range asks {
			q := a
			if a != "" {
				q = randASCIICase(t, a)
			}
			want := -1
			for i, nm := range names {
				if strings.EqualFold(nm, q) {
					want = i
					break
				}
			}
			c, err := list.LookupColumn(q)
			i, ierr := list.LookupIndexOfColumn(q)
			x, xerr := idxs.LookupIndex(q)
			xi, xierr := idxs.LookupIndexOfIndex(q)
			if want < 0 {
				for _, e := range []error{err, ierr, xerr, xierr} {
					if !errors.Is(e, query.ErrNotFound) {
						t.Fatalf("%s: looking up %q: %v", key, q, e)
					}
				}
				continue
			}
			hits++
			if err != nil || ierr != nil || xerr != nil || xierr != nil || c != cols[want] || i != want || x != idxs[want] || xi != want {
				t.Fatalf("%s: looking up %q: %v %v %v %v at %d %d, want %d", key, q, err, ierr, xerr, xierr, i, xi, want)
			}
		}
		note(n > 1 && hits > 0, key, fmt.Sprintf("columns/%d", min(n, 4)))
	})
}

func randASCIICase(t *rapid.T, s string) string {
	if uniform(t, 3) == 0 {
		return s
	}
	return strings.Map(func(r rune) rune {
		if r < 128 && boolean.Draw(t, "case") {
			if u := strings.ToUpper(string(r)); u != string(r) {
				return rune(u[0])
			}
			return rune(strings.ToLower(string(r))[0])
		}
		return r
	}, s)
}

// TestC30_Tables: a table list finds the tables it holds.
func TestC30_Tables(t *testing.T) {
	prop(t, 60, func(t *rapid.T) {
		type tb struct{ schema, name string }
		n := size(t, 0, 6)
		want := make([]tb, n)
		tables := make([]query.Table, n)
		full := make([]string, n)
		for i := range want {
			want[i].name = genPlainName(t).Val
			opts := []query.TableOption{}
			full[i] = want[i].name
			if chance(t, 50) {
				want[i].schema = genPlainName(t).Val
				opts = append(opts, query.WithTableSchema(want[i].schema))
				full[i] = want[i].schema + "." + want[i].name
			}
			tables[i] = query.NewTableWith(want[i].name, opts...)
			if tables[i].TableName() != want[i].name || tables[i].SchemaName() != want[i].schema || tables[i].FullTableName() != full[i] {
				t.Fatalf("table %v is %q in %q, %q", want[i], tables[i].TableName(), tables[i].SchemaName(), tables[i].FullTableName())
			}
		}
		key := fmt.Sprintf("%q", want)
		list := query.NewTablesWith(tables...)
		if !sameStrings(list.TableNames(), full) || list.String() != strings.Join(full, ", ") || len(list.Tables()) != n {
			t.Fatalf("%s: named %q, printed %q", key, list.TableNames(), list.String())
		}
		asks := []string{}
		for k, m := 0, uniform(t, 4); k < m; k++ {
			a := genPlainName(t).Val
			if n > 0 {
				w := want[uniform(t, n)]
				a = pick(t, w.name, w.schema, a, w.name+"x")
			}
			if a != "" {
				a = randASCIICase(t, a)
			}
			asks = append(asks, a)
		}
		has, hasSchema := false, false
		for _, a := range asks {
			for i, w := range want {
				has = has || strings.EqualFold(w.name, a)
				hasSchema = hasSchema || strings.EqualFold(w.schema, a)
				if tables[i].IsTableName(a) != strings.EqualFold(w.name, a) || tables[i].IsSchemaName(a) != strings.EqualFold(w.schema, a) || tables[i].IsFullTableName(a) != strings.EqualFold(full[i], a) {
					t.Fatalf("%s: table %d asked for %q", key, i, a)
				}
			}
		}
		if list.HasTable(asks...) != has || list.HasTableName(asks...) != has || list.HasSchemaTable(asks...) != hasSchema {
			t.Fatalf("%s: has %q: %v %v %v, want %v and schema %v", key, asks, list.HasTable(asks...), list.HasTableName(asks...), list.HasSchemaTable(asks...), has, hasSchema)
		}
		note(n > 0 && len(asks) > 0, key+fmt.Sprintf("%q", asks), fmt.Sprintf("tables/%d", min(n, 3)))
	})
}

// TestC30_Selectors: a parsed select list tells its columns from its functions.
func TestC30_Selectors(t *testing.T) {
	prop(t, 60, func(t *rapid.T) {
		n := 1 + size(t, 0, 6)
		parts := []string{}
		names := []string{} // the columns
		fns := []fnClass{}
		fargs := [][]string{}
		for i := 0; i < n; i++ {
			if chance(t, 50) {
				nm := genPlainName(t).Val
				parts, names = append(parts, nm), append(names, nm)
				continue
			}
			c := pick(t, fnClasses...)
			for len(c.name) < 2 || c.name == "CURRENT_TIMESTAMP" {
				c = pick(t, fnClasses...)
			}
			fns = append(fns, c)
			args := []string{genPlainName(t).Val}
			if c.typ != fn.AggregateFunction && chance(t, 40) {
				args = args[:0]
				for k := pick(t, 0, 0, 2, 3); k > 0; k-- {
					args = append(args, genPlainName(t).Val)
				}
			}
			fargs = append(fargs, args)
			parts = append(parts, randCase(t, c.name)+"("+strings.Join(args, ", ")+")")
		}
		src := "SELECT " + strings.Join(parts, ", ") + " FROM t"
		if len(names) == 0 && len(fns) == 0 {
			src = "SELECT * FROM t"
		}
		describe(src)
		stmts, err := sql.NewParser().ParseString(src)
		if err != nil || len(stmts) != 1 {
			t.Fatalf("%q: %v %v", src, stmts, err)
		}
		stmt := stmts[0].(sql.Select)
		sels := stmt.Selectors()
		aggr, exec := 0, 0
		byType := map[fn.FunctionType]int{}
		for _, f := range fns {
			byType[f.typ]++
			if f.typ == fn.AggregateFunction {
				aggr++
			} else {
				exec++
			}
		}
		note(len(names) > 0 && len(fns) > 0, src, fmt.Sprintf("selectors/aggr=%v/exec=%v", aggr > 0, exec > 0))
		if sels.Len() != n || sels.IsAsterisk() || sels.HasFunction() != (len(fns) > 0) || sels.HasAggregator() != (aggr > 0) || sels.HasExecutor() != (exec > 0) || stmt.HasAggregator() != (aggr > 0) || stmt.HasExecutor() != (exec > 0) {
			t.Fatalf("%q: %d selectors, asterisk %v, function %v, aggregator %v %v, executor %v %v", src, sels.Len(), sels.IsAsterisk(), sels.HasFunction(), sels.HasAggregator(), stmt.HasAggregator(), sels.HasExecutor(), stmt.HasExecutor())
		}
		got := sels.Functions()
		if len(got) != len(fns) {
			t.Fatalf("%q: %d functions", src, len(got))
		}
		for i, f := range fns {
			if got[i].Name() != f.name || !sameStrings(got[i].Arguments().Names(), fargs[i]) {
				t.Fatalf("%q: function %d is %s of %q", src, i, got[i].Name(), got[i].Arguments())
			}
		}
		cols := []string{}
		for _, c := range sels.Columns() {
			cols = append(cols, c.Name())
		}
		if !sameStrings(cols, names) {
			t.Fatalf("%q: columns %q, want %q", src, cols, names)
		}
		heads := sels.Names()
		if len(heads) != n {
			t.Fatalf("%q: names %q", src, heads)
		}
		for i, p := range parts {
			want := p
			if k := strings.IndexByte(p, '('); k >= 0 {
				want = strings.ToUpper(p[:k]) + p[k:]
			}
			if heads[i] != want {
				t.Fatalf("%q: name %d is %q, want %q", src, i, heads[i], want)
			}
		}
		for _, typ := range []fn.FunctionType{fn.MathFunction, fn.AggregateFunction, fn.StringFunction, fn.TimeFunction, fn.ArithOperator, fn.CastFunction} {
			if sels.HasFunctionWithType(typ) != (byType[typ] > 0) {
				t.Fatalf("%q: has functions of type %v: %v", src, typ, sels.HasFunctionWithType(typ))
			}
			exs, err := sels.ExecutorsForType(typ)
			want := byType[typ]
			if typ == fn.AggregateFunction {
				want = 0
			}
			if err != nil || len(exs) != want {
				t.Fatalf("%q: executors of type %v: %d %v, want %d", src, typ, len(exs), err, want)
			}
		}
		exs, err := sels.Executors()
		if err != nil || len(exs) != exec {
			t.Fatalf("%q: %d executors %v, want %d", src, len(exs), err, exec)
		}
		k := 0
		for _, f := range fns {
			if f.typ == fn.AggregateFunction {
				continue
			}
			if exs[k].Name() != f.name {
				t.Fatalf("%q: executor %d is %s, want %s", src, k, exs[k].Name(), f.name)
			}
			k++
		}
		if chance(t, 30) { // a function nobody knows
			at := uniform(t, len(sels)+1)
			odd := append(append(query.Selectors{}, sels[:at]...), fn.NewFunction(fn.WithFunctionName("no_such_function"), fn.WithFunctionArguments(fn.NewArgumentWith("a"))))
			odd = append(odd, sels[at:]...)
			if exs, err := odd.Executors(); err == nil {
				t.Fatalf("%q with an unknown function: %d executors", src, len(exs))
			}
			if exs, err := odd.ExecutorsForType(fn.MathFunction); err == nil {
				t.Fatalf("%q with an unknown function: %d executors", src, len(exs))
			}
			if as, err := odd.Aggregators(); err == nil {
				t.Fatalf("%q with an unknown function: %d aggregators", src, len(as))
			}
			if x, err := odd.LookupExecutor("NO_SUCH_FUNCTION"); err == nil {
				t.Fatalf("%q: executor of an unknown function: %v", src, x)
			}
		}
		if as, err := sels.Aggregators(); err == nil {
			k := 0
			for i, f := range fns {
				if f.typ != fn.AggregateFunction {
					continue
				}
				if k < len(as) && (!strings.EqualFold(as[k].Name(), f.name) || !sameStrings(as[k].Arguments(), fargs[i])) {
					t.Fatalf("%q: aggregator %d is %s of %q", src, k, as[k].Name(), as[k].Arguments())
				}
				k++
			}
		}
		if as, err := sels.Aggregators(); (err != nil) != (exec > 0) || err == nil && len(as) != aggr {
			t.Fatalf("%q: aggregators %d, %v", src, len(as), err)
		}
		ask := pick(t, fnClasses...)
		want := false
		for _, f := range fns {
			want = want || f.name == ask.name
		}
		q := randCase(t, ask.name)
		f, err := sels.LookupFunction(q)
		if want != (err == nil) || (want && f.Name() != ask.name) || (!want && !errors.Is(err, query.ErrNotFound)) {
			t.Fatalf("%q: looking up %s: %v %v", src, q, f, err)
		}
		if ask.typ != fn.AggregateFunction {
			x, err := sels.LookupExecutor(q)
			if want != (err == nil) || (want && x.Name() != ask.name) {
				t.Fatalf("%q: looking up the executor %s: %v %v", src, q, x, err)
			}
		}
	})
}

// ----------------------------------------------------------- C31: data types

var allTypes = append([]string{"BINARY", "DOUBLE PRECISION", "SET"}, dataTypes...)

// TestC31_Names: the names of data types and the types are one to one.
func TestC31_Names(t *testing.T) {
	seen := map[query.DataType]string{}
	for _, n := range allTypes {
		dt, err := query.NewDataTypeFromString(n)
		if err != nil {
			t.Fatalf("%s: %v", n, err)
		}
		if o, ok := seen[dt]; ok {
			t.Fatalf("%s and %s are one type", n, o)
		}
		seen[dt] = n
	}
	if len(seen) != 38 {
		t.Fatalf("%d types", len(seen))
	}
	prop(t, 100, func(t *rapid.T) {
		n := pick(t, allTypes...)
		q := randCase(t, n)
		note(q != n, q, "name")
		var in any = q
		if chance(t, 50) {
			in = []byte(q)
		}
		a, err := query.NewDataTypeFromString(q)
		b, berr := query.NewDataTypeFrom(in)
		if err != nil || berr != nil || a != b || a.String() != n || seen[a] != n {
			t.Fatalf("%q: %v %v %v %v", q, a, err, b, berr)
		}
		l := pick(t, -1, 0, 1, 2, 10, 255, 65535, 1<<31-1)
		def, err := query.NewDataDefFrom(q, l)
		if err != nil || def.DataType() != a || def.DataTypeSize() != l {
			t.Fatalf("definition of %q %d: %v %v", q, l, def, err)
		}
		print := n
		if l > 0 {
			print += fmt.Sprintf("(%d)", l)
		}
		if def.String() != print {
			t.Fatalf("definition of %q %d prints %q", q, l, def.String())
		}
		if sq := strings.ReplaceAll(n, " ", ""); sq != n { // one word, as the parser hands it over
			if got, err := query.NewDataTypeFromString(randCase(t, sq)); err != nil || got != a {
				t.Fatalf("data type of %q: %v %v", sq, got, err)
			}
		}
		// A function has the type of what it returns.
		c := pick(t, fnClasses...)
		fx := fn.NewFunction(fn.WithFunctionName(randCase(t, c.name)))
		ret := map[fn.FunctionType]query.DataType{fn.StringFunction: query.TextType, fn.TimeFunction: query.TimeStampType}[c.typ]
		if c.typ != fn.StringFunction && c.typ != fn.TimeFunction {
			ret = query.FloatType
		}
		t1, err1 := query.NewDataTypeForFunction(fx)
		t2, err2 := query.NewDataTypeFrom(fx)
		if err1 != nil || err2 != nil || t1 != ret || t2 != ret {
			t.Fatalf("data type of %s: %v %v, %v %v, want %v", c.name, t1, err1, t2, err2, ret)
		}
		if got, err := query.NewDataTypeForFunction(fn.NewFunction(fn.WithFunctionName("no_such_function"))); err == nil {
			t.Fatalf("data type of an unknown function: %v", got)
		}
		if got, err := query.NewDataTypeForFunction(nil); err == nil {
			t.Fatalf("data type of no function: %v", got)
		}
		// Anything else is refused.
		bad := pick(t, n+"S", n+" ", " "+n, n[1:], n+n, "", "NAME", "UNKNOWN", "STRING", "INT4", plainName(t), "("+n+")", n+"(1)")
		ok := false
		for _, x := range allTypes {
			ok = ok || strings.EqualFold(x, bad) || strings.EqualFold(strings.ReplaceAll(x, " ", ""), bad)
		}
		note(!ok, bad, "other")
		got, err := query.NewDataTypeFromString(bad)
		if ok != (err == nil) || (!ok && (got != query.UnknownData || !errors.Is(err, query.ErrInvalid))) {
			t.Fatalf("data type of %q: %v %v", bad, got, err)
		}
		if _, err := query.NewDataDefFrom(bad, 1); ok != (err == nil) {
			t.Fatalf("definition of %q: %v", bad, err)
		}
	})
}

// TestC31_Values: the type of a value is that of its kind; other kinds are refused.
func TestC31_Values(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		n := rapid.Int64().Draw(t, "v")
		now := time.Unix(n%1000000, 0)
		s := stringValue(t)
		c := pick(t, []struct {
			v    any
			want string
		}{
			{int8(n), "TINYINT"}, {uint8(n), "TINYINT"}, {int16(n), "SMALLINT"}, {uint16(n), "SMALLINT"}, {int32(n), "INT"}, {uint32(n), "INT"},
			{n, "BIGINT"}, {uint64(n), "BIGINT"}, {int(n), "INT"}, {uint(n), "INT"}, {float32(n), "FLOAT"}, {float64(n) / 3, "DOUBLE"},
			{n%2 == 0, "BOOLEAN"}, {s, "VARCHAR"}, {[]byte(s), "BLOB"}, {now, "TIMESTAMP"}, {&now, "TIMESTAMP"},
			{nil, ""}, {struct{}{}, ""}, {[]string{s}, ""}, {map[string]any{}, ""}, {&n, ""}, {errors.New(s), ""}, {complex(1, 2), ""},
		}...)
		key := fmt.Sprintf("%T %v", c.v, c.v)
		note(c.v != nil, key, fmt.Sprintf("%T", c.v))
		dt, err := query.NewDataTypeForValue(c.v)
		if (c.want != "") != (err == nil) || dt.String() != c.want {
			t.Fatalf("type of %s: %q %v, want %q", key, dt, err, c.want)
		}
		if c.want == "" && !errors.Is(err, query.ErrInvalid) {
			t.Fatalf("type of %s: %v", key, err)
		}
		switch c.v.(type) {
		case string, []byte:
		default:
			if dt, err := query.NewDataTypeFrom(c.v); !errors.Is(err, query.ErrInvalid) || dt != query.UnknownData {
				t.Fatalf("type named by %s: %v %v", key, dt, err)
			}
		}
	})
}

// ----------------------------------------------------------- C32: utilities

// TestC32_Stack: a stack gives back what was pushed, last first.
func TestC32_Stack(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		s := util.NewStack()
		model := []any{}
		log := []string{}
		pops := 0
		burst := chance(t, 10)
		for i, n := 0, size(t, 2, 80); i < n; i++ {
			if burst && chance(t, 20) { // many at once
				k := uniform(t, 600)
				if chance(t, 50) {
					log = append(log, fmt.Sprintf("push 0..%d", k-1))
					for v := 0; v < k; v++ {
						s.PushObject(v)
						model = append(model, v)
					}
				} else {
					log = append(log, fmt.Sprintf("pop %d", k))
					for v := 0; v < k; v++ {
						var want any
						if len(model) > 0 {
							want = model[len(model)-1]
							model = model[:len(model)-1]
							pops++
						}
						if got := s.PopObject(); got != want || s.Size() != len(model) {
							t.Fatalf("%s\npopped %v of %d, want %v of %d", strings.Join(log, "; "), got, s.Size(), want, len(model))
						}
					}
				}
			}
			switch uniform(t, 5) {
			case 0, 1:
				var v any = uniform(t, 1000)
				switch uniform(t, 12) {
				case 0:
					v = plainName(t)
				case 1:
					v = nil
				case 2:
					v = pick[any](t, 0, "", false, 0.0, (*int)(nil), error(nil))
				case 3:
					if len(model) > 0 { // the same one again
						v = model[len(model)-1]
					}
				}
				s.PushObject(v)
				model = append(model, v)
				log = append(log, fmt.Sprintf("push %v", v))
			case 2, 3:
				var want any
				if len(model) > 0 {
					want = model[len(model)-1]
					model = model[:len(model)-1]
					pops++
				}
				log = append(log, "pop")
				if got := s.PopObject(); got != want {
					t.Fatalf("%s\npopped %v, want %v", strings.Join(log, "; "), got, want)
				}
			}
			var top any
			if len(model) > 0 {
				top = model[len(model)-1]
			}
			if got := s.PeekObject(); got != top || s.Size() != len(model) {
				t.Fatalf("%s\ntop %v of %d, want %v of %d", strings.Join(log, "; "), got, s.Size(), top, len(model))
			}
		}
		note(pops > 1, strings.Join(log, "; "), "stack")
	})
}

// TestC32_Quoting: quoting a string is undone by unquoting it, and the quoted
// text is one literal of that value.
func TestC32_Quoting(t *testing.T) {
	prop(t, 60, func(t *rapid.T) {
		s := stringValue(t)
		q := ustrings.EscapeString(s)
		note(strings.ContainsAny(s, "'\"`"), s, "quote")
		if got := ustrings.UnEscapeString(q); got != s {
			t.Fatalf("%q quoted as %q is unquoted as %q", s, q, got)
		}
		if q != quote(s) {
			t.Fatalf("%q is quoted as %q", s, q)
		}
		if !strings.HasPrefix(s, "'") && !strings.HasPrefix(s, "\"") {
			if got := ustrings.UnEscapeString(s); got != s {
				t.Fatalf("the unquoted %q is changed to %q", s, got)
			}
		}
		elems := vals(distinct(t, size(t, 0, 6), genPlainName))
		if got := ustrings.JoinWithComma(elems); got != strings.Join(elems, ", ") {
			t.Fatalf("%q joined as %q", elems, got)
		}
		if got := ustrings.JoinWithSpace(elems); got != strings.Join(elems, " ") {
			t.Fatalf("%q joined as %q", elems, got)
		}
		x, y := genName(t).Val, genName(t).Val
		if chance(t, 50) {
			y = randASCIICase(t, x)
		}
		if ustrings.Equal(x, y) != (x == y) || ustrings.EqualFold(x, y) != strings.EqualFold(x, y) {
			t.Fatalf("%q and %q compared", x, y)
		}
	})
}
