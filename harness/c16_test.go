package harness

import (
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/stmt"
	"pgregory.net/rapid"
)

// param is a bind parameter with the literal it stands for.
type param struct {
	v any
	l Lit
}

type (
	namedText string
	namedInt  int32
	namedBool bool
	namedUint uint64
	namedReal float64
	namedLong int64
	namedByte uint8
	spoken    struct{ text string }
)

func (s spoken) String() string { return s.text }

func genParam(t *rapid.T) param {
	switch uniform(t, 14) {
	case 12: // the value behind a type or pointer of the caller's own
		s := anyText(t)
		n := int32(rapid.Int32().Draw(t, "n"))
		b := chance(t, 50)
		u := rapid.Uint64().Draw(t, "u")
		f := float64(uniform(t, 1<<20)-1<<19) / 64
		real := strconv.FormatFloat(f, 'g', -1, 64)
		switch uniform(t, 15) {
		case 5:
			return param{namedBool(b), Lit{fmt.Sprint(b), false}}
		case 6:
			return param{&b, Lit{fmt.Sprint(b), false}}
		case 7:
			return param{namedUint(u), Lit{fmt.Sprint(u), false}}
		case 8:
			return param{&u, Lit{fmt.Sprint(u), false}}
		case 9:
			return param{namedReal(f), Lit{real, false}}
		case 10:
			return param{&f, Lit{real, false}}
		case 11:
			return param{namedLong(u), Lit{fmt.Sprint(int64(u)), false}}
		case 12:
			return param{namedByte(u), Lit{fmt.Sprint(uint8(u)), false}}
		case 13:
			tm := time.Unix(int64(uniform(t, 1<<31)), 0).UTC()
			return param{&tm, Lit{tm.Format("2006-01-02 15:04:05"), true}}
		case 0:
			return param{namedText(s), Lit{s, true}}
		case 1:
			return param{&s, Lit{s, true}}
		case 2:
			return param{spoken{s}, Lit{s, true}}
		case 3:
			return param{&spoken{s}, Lit{s, true}}
		case 4:
			return param{namedInt(n), Lit{fmt.Sprint(n), false}}
		}
		return param{&n, Lit{fmt.Sprint(n), false}}
	case 13:
		return param{pick[any](t, (*string)(nil), (*int)(nil), (*spoken)(nil), (*time.Time)(nil)), Lit{"NULL", false}}
	case 0, 1, 2, 3, 4:
		s := anyText(t)
		return param{s, Lit{s, true}}
	case 5:
		return param{nil, Lit{"NULL", false}}
	case 6:
		s := anyText(t)
		return param{[]byte(s), Lit{s, true}}
	case 7:
		n := rapid.Int64().Draw(t, "n")
		switch uniform(t, 5) {
		case 3:
			return param{int16(n), Lit{fmt.Sprint(int16(n)), false}}
		case 0:
			return param{int(n), Lit{fmt.Sprint(n), false}}
		case 1:
			return param{int32(n), Lit{fmt.Sprint(int32(n)), false}}
		case 2:
			return param{int8(n), Lit{fmt.Sprint(int8(n)), false}}
		}
		return param{n, Lit{fmt.Sprint(n), false}}
	case 8:
		n := rapid.Uint64().Draw(t, "n")
		if chance(t, 50) {
			switch uniform(t, 4) {
			case 0:
				return param{uint8(n), Lit{fmt.Sprint(uint8(n)), false}}
			case 1:
				return param{uint32(n), Lit{fmt.Sprint(uint32(n)), false}}
			case 2:
				return param{uint(n), Lit{fmt.Sprint(n), false}}
			}
			return param{uint16(n), Lit{fmt.Sprint(uint16(n)), false}}
		}
		return param{n, Lit{fmt.Sprint(n), false}}
	case 9:
		b := rapid.Bool().Draw(t, "b")
		return param{b, Lit{fmt.Sprint(b), false}}
	case 10:
		tm := time.Unix(int64(uniform(t, 1<<31)), 0).UTC()
		return param{tm, Lit{tm.Format("2006-01-02 15:04:05"), true}}
	}
	f := float64(uniform(t, 1<<20)-1<<19) / 64
	if chance(t, 20) { // a value that both kinds of floating point numbers hold exactly
		f = float64(uniform(t, 1<<12)-1<<11) / 8
		return param{float32(f), Lit{strconv.FormatFloat(f, 'g', -1, 64), false}}
	}
	if chance(t, 30) {
		f = rapid.Float64Range(-1e300, 1e300).Draw(t, "f")
	}
	return param{f, Lit{strconv.FormatFloat(f, 'g', -1, 64), false}}
}

// TestC16_Bind: a bound statement means the statement with the values in place
// of the placeholders, whatever the values contain.
func TestC16_Bind(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		n := size(t, 1, 12)
		style := uniform(t, 3)
		params := []param{}
		for i := 0; i < n; i++ {
			params = append(params, genParam(t))
		}
		order := make([]int, 0, n)
		for i := 0; i < n; i++ {
			order = append(order, i)
		}
		if style > 0 {
			// Numbered placeholders stand in any order and may be repeated.
			for i := n - 1; i > 0; i-- {
				j := uniform(t, i+1)
				order[i], order[j] = order[j], order[i]
			}
			for chance(t, 30) {
				order = append(order, uniform(t, n))
			}
		}
		holder := func(i int) string {
			switch style {
			case 0:
				return "?"
			case 1:
				return fmt.Sprintf("$%d", i+1)
			}
			return fmt.Sprintf("?%d", i+1)
		}
		decoy := func() string { // text that looks like a placeholder but is not
			return pick(t, "", "", "", "/* ? $1 ?1 */", "-- ? $1\n")
		}
		var m Stmt
		var sb strings.Builder
		fixed := Lit{pick(t, "?", "$1", "?1", "it's ? $2", "x", "'?'"), true}
		switch form := uniform(t, 4); {
		case form == 0:
			m = Stmt{Kind: "INSERT", Name: "t"}
			sb.WriteString("INSERT INTO t (f")
			row := []Cell{{"f", fixed}}
			for k := range order {
				fmt.Fprintf(&sb, ", c%d", k)
			}
			sb.WriteString(") VALUES (" + fixed.Src())
			for k, i := range order {
				sb.WriteString(pick(t, ",", ", ") + decoy() + holder(i))
				row = append(row, Cell{fmt.Sprintf("c%d", k), params[i].l})
			}
			sb.WriteString(")")
			m.Rows = [][]Cell{row}
		case form == 1:
			m = Stmt{Kind: "UPDATE", Name: "t", Cols: []Col{{Name: "f", Val: &fixed}}}
			sb.WriteString("UPDATE t SET f=" + fixed.Src())
			for k, i := range order[1:] {
				fmt.Fprintf(&sb, ", c%d%s%s%s", k, pick(t, "=", " = "), decoy(), holder(i))
				l := params[i].l
				m.Cols = append(m.Cols, Col{Name: fmt.Sprintf("c%d", k), Val: &l})
			}
			// The first placeholder by number stands last by position here, so
			// positional placeholders are renumbered.
			ps := order
			if style == 0 {
				ps = append(append([]int{}, order[1:]...), order[0])
				for k := range m.Cols[1:] {
					l := params[k].l
					m.Cols[k+1].Val = &l
				}
				ps[len(ps)-1] = n - 1
				l := params[n-1].l
				m.Where = &Cond{Op: "=", Col: "k", Lit: &l}
			} else {
				l := params[order[0]].l
				m.Where = &Cond{Op: "=", Col: "k", Lit: &l}
			}
			sb.WriteString(" WHERE k = " + decoy() + holder(order[0]))
		case form == 2 && len(order) == 2:
			a, b := params[order[0]].l, params[order[1]].l
			m = Stmt{Kind: "SELECT", Sels: []Sel{{Name: "*"}}, Tables: []string{"t"}, Where: &Cond{Op: "AND", Left: &Cond{Op: "=", Col: "a", Lit: &a}, Right: &Cond{Op: "<", Col: "b", Lit: &b}}}
			sb.WriteString("SELECT * FROM t WHERE a = " + decoy() + holder(order[0]) + " AND b < " + holder(order[1]))
		default:
			m = Stmt{Kind: "INSERT", Name: "t"}
			sb.WriteString("INSERT INTO t VALUES ")
			for k, i := range order {
				if k > 0 {
					sb.WriteString(", ")
				}
				sb.WriteString("(" + fixed.Src() + "," + decoy() + holder(i) + ")")
				m.Rows = append(m.Rows, []Cell{{"", fixed}, {"", params[i].l}})
			}
		}
		text := sb.String()
		ps := stmt.BindParams{}
		vs := []string{}
		odd := false
		for _, p := range params {
			ps = append(ps, stmt.NewBindParam(p.v))
			vs = append(vs, fmt.Sprintf("%q", fmt.Sprint(p.v)))
			odd = odd || p.l.Str && strings.ContainsAny(p.l.Val, "'?$\"")
		}
		describe(text + " " + strings.Join(vs, " "))
		bs := stmt.NewBindStatement(stmt.WithBindStatementQuery(text), stmt.WithBindStatementParams(ps))
		for round := 0; round < 2; round++ {
			stmts, err := bs.Statements()
			if err != nil {
				t.Fatalf("bound statement is not parsed: %v\nSQL: %s\nvalues: %v", err, text, vs)
			}
			if len(stmts) != 1 {
				t.Fatalf("bound statement is parsed as %d\nSQL: %s\nvalues: %v", len(stmts), text, vs)
			}
			got, err := extract(stmts[0])
			if err != nil || !sameStmt(got, m) {
				t.Fatalf("bound statement differs (%v)\nSQL: %s\nvalues: %v\ngot:  %s\nwant: %s", err, text, vs, js(got), js(m))
			}
		}
		note(odd || n > 1, text+" <- "+strings.Join(vs, ", "), m.Kind, fmt.Sprintf("style%d", style))
	})
}

// TestC16_Unused: a value with no placeholder is an error, not a silent loss.
func TestC16_Unused(t *testing.T) {
	prop(t, 30, func(t *rapid.T) {
		holders := uniform(t, 6)
		n := holders + 1 + uniform(t, 4)
		style := uniform(t, 2)
		parts := []string{quote(pick(t, "?", "$1", "a"))}
		for i := 0; i < holders; i++ {
			if style == 0 {
				parts = append(parts, "?")
			} else {
				parts = append(parts, fmt.Sprintf("$%d", i+1))
			}
		}
		text := "INSERT INTO t VALUES (" + strings.Join(parts, ", ") + ") -- ? $9"
		ps := stmt.BindParams{}
		for i := 0; i < n; i++ {
			ps = append(ps, stmt.NewBindParam(genParam(t).v))
		}
		describe(text)
		_, err := stmt.NewBindStatement(stmt.WithBindStatementQuery(text), stmt.WithBindStatementParams(ps)).Statements()
		if err == nil {
			t.Fatalf("%d values for %d placeholders are accepted\nSQL: %s", n, holders, text)
		}
		if !errors.Is(err, stmt.ErrNotFound) {
			t.Fatalf("unused value: error is not ErrNotFound: %v", err)
		}
		note(true, fmt.Sprint(text, n), "unused")
	})
}

// TestC16_Mixed: numbered placeholders after the positional ones take the value of their number again.
func TestC16_Mixed(t *testing.T) {
	prop(t, 20, func(t *rapid.T) {
		n := 1 + uniform(t, 12)
		parts, want, vs := []string{}, []string{}, []string{}
		ps := stmt.BindParams{}
		for i := 0; i < n; i++ {
			p := genParam(t)
			ps, vs = append(ps, stmt.NewBindParam(p.v)), append(vs, p.l.Src())
			parts, want = append(parts, "?"), append(want, p.l.Src())
		}
		for i, more := 0, 1+uniform(t, 6); i < more; i++ {
			k := uniform(t, n)
			parts = append(parts, pick(t, "$", "?")+fmt.Sprint(k+1))
			want = append(want, vs[k])
		}
		text := "INSERT INTO t VALUES (" + strings.Join(parts, ", ") + ")"
		plain := "INSERT INTO t VALUES (" + strings.Join(want, ", ") + ")"
		describe(text + " " + strings.Join(vs, " "))
		got, err := stmt.NewBindStatement(stmt.WithBindStatementQuery(text), stmt.WithBindStatementParams(ps)).Statements()
		if err != nil || len(got) != 1 {
			t.Fatalf("bound statement is not parsed as one: %v %v\nSQL: %s\nvalues: %v", got, err, text, vs)
		}
		exp, err := sql.NewParser().ParseString(plain)
		if err != nil || len(exp) != 1 {
			t.Fatalf("harness: %v\nSQL: %s", err, plain)
		}
		a, err1 := extract(got[0])
		b, err2 := extract(exp[0])
		if err1 != nil || err2 != nil || !sameStmt(a, b) {
			t.Fatalf("bound statement differs\nSQL: %s\ngot:  %s\nwant: %s", text, js(a), js(b))
		}
		note(true, text, "mixed")
	})
}

// TestC16_InPlace: binding is writing the literal in place of the placeholder,
// among quoted names and operators that hold or touch a placeholder.
func TestC16_InPlace(t *testing.T) {
	prop(t, 50, func(t *rapid.T) {
		n := size(t, 1, 5)
		style := uniform(t, 3)
		inner := func() string {
			return pick(t, "a", "b ") + pick(t, "?", "$1", "?1", "$2", "--", "/*", "??", "'", "it's ?") + pick(t, "", "c", " d")
		}
		name := func() string {
			switch uniform(t, 4) {
			case 0:
				return "[" + inner() + "]"
			case 1:
				return "`" + inner() + "`"
			case 2:
				return "\"" + inner() + "\""
			}
			return genPlainName(t).Src
		}
		var bound, plain strings.Builder
		both := func(s string) { bound.WriteString(s); plain.WriteString(s) }
		ps := stmt.BindParams{}
		vs := []string{}
		hole := func() {
			p := genParam(t)
			ps, vs = append(ps, stmt.NewBindParam(p.v)), append(vs, p.l.Src())
			bound.WriteString([]string{"?", fmt.Sprintf("$%d", len(ps)), fmt.Sprintf("?%d", len(ps))}[style])
			plain.WriteString(" " + p.l.Src() + " ")
		}
		number := func() {
			v := uniform(t, 2000) - 1000
			ps, vs = append(ps, stmt.NewBindParam(v)), append(vs, fmt.Sprint(v))
			bound.WriteString([]string{"?", fmt.Sprintf("$%d", len(ps)), fmt.Sprintf("?%d", len(ps))}[style])
			plain.WriteString(" " + fmt.Sprint(v) + " ")
		}
		count := func() {
			v := 1 + uniform(t, 2000)
			ps, vs = append(ps, stmt.NewBindParam(v)), append(vs, fmt.Sprint(v))
			bound.WriteString([]string{"?", fmt.Sprintf("$%d", len(ps)), fmt.Sprintf("?%d", len(ps))}[style])
			plain.WriteString(" " + fmt.Sprint(v) + " ")
		}
		kind := "update"
		switch uniform(t, 4) {
		case 3: // no condition before the limit
			kind = "limit"
			both("SELECT * FROM t" + pick(t, "", " ORDER BY "+name()) + " " + pick(t, "LIMIT", "LIMIT ", "limit"))
			count()
			if chance(t, 50) {
				both(pick(t, "OFFSET", " offset "))
				count()
			}
		case 0:
			both("UPDATE " + name() + " SET ")
			for i := 0; i < n; i++ {
				if i > 0 {
					both(",")
				}
				both(name() + "=")
				if chance(t, 40) {
					both(genPlainName(t).Src + pick(t, "-", " - ", "+", "*"))
					number()
				} else {
					hole()
				}
			}
			both(pick(t, " WHERE ", "WHERE ") + name() + pick(t, "=", "<", ">="))
			hole()
		case 1:
			kind = "insert"
			both("INSERT INTO t (")
			for i := 0; i < n; i++ {
				both(pick(t, "", " ") + name() + map[bool]string{true: ") VALUES (", false: ","}[i == n-1])
			}
			for i := 0; i < n; i++ {
				hole()
				both(map[bool]string{true: ")", false: ","}[i == n-1])
			}
		default:
			kind = "select"
			both("SELECT " + name() + ", " + name() + " FROM t WHERE " + name() + "=")
			hole()
			both(pick(t, " AND ", " OR ", "AND ", "or ") + name() + "<=")
			hole()
			both(pick(t, "", " ORDER BY "+name(), " GROUP BY "+name(), "ORDER BY "+name(), "group by "+name()))
			if chance(t, 40) { // the placeholder touches the keyword
				both(pick(t, " LIMIT", "LIMIT ", " limit"))
				count()
				if chance(t, 50) {
					both(pick(t, " OFFSET", "OFFSET ", "offset", ","))
					count()
				}
			}
		}
		text := bound.String()
		describe(text + " <- " + strings.Join(vs, ", "))
		want, _, err := parseModels(plain.String())
		if err != nil {
			note(false, text, "unparsed")
			return
		}
		stmts, err := stmt.NewBindStatement(stmt.WithBindStatementQuery(text), stmt.WithBindStatementParams(ps)).Statements()
		if err != nil || len(stmts) != 1 || len(want) != 1 {
			t.Fatalf("bound statement is not parsed: %v\nSQL: %s\nvalues: %v", err, text, vs)
		}
		if got, err := extract(stmts[0]); err != nil || !sameStmt(got, want[0]) {
			t.Fatalf("bound statement differs (%v)\nSQL: %s\nvalues: %v\ngot:  %s\nwant: %s", err, text, vs, js(got), js(want[0]))
		}
		note(true, text+" <- "+strings.Join(vs, ", "), "in-place-"+kind)
	})
}

// TestC16_Unwritable: a value that cannot be written as a literal is an error.
func TestC16_Unwritable(t *testing.T) {
	prop(t, 10, func(t *rapid.T) {
		n := size(t, 1, 5)
		bad := uniform(t, n)
		ps := stmt.BindParams{}
		hs := []string{}
		for i := 0; i < n; i++ {
			v := genParam(t).v
			if i == bad {
				v = pick[any](t, make(chan int), func() {}, struct{ A int }{1}, map[string]int{"a": 1}, []string{"a"}, math.NaN(), math.Inf(1), math.Inf(-1), float32(math.Inf(1)))
			}
			ps, hs = append(ps, stmt.NewBindParam(v)), append(hs, "?")
		}
		text := "INSERT INTO t VALUES (" + strings.Join(hs, ", ") + ")"
		describe(fmt.Sprint(text, bad))
		if stmts, err := stmt.NewBindStatement(stmt.WithBindStatementQuery(text), stmt.WithBindStatementParams(ps)).Statements(); err == nil {
			t.Fatalf("a value that has no literal is bound as %v", stmts[0])
		}
		note(true, fmt.Sprint(text, bad), "unwritable")
	})
}
