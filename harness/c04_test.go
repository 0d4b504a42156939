package harness

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"pgregory.net/rapid"
)

// refused checks that the text is an error without statements.
func refused(t *rapid.T, text, why string) {
	describe(text)
	stmts, err := sql.NewParser().ParseString(text)
	if err == nil || len(stmts) != 0 {
		strs := []string{}
		for _, s := range stmts {
			strs = append(strs, s.String())
		}
		t.Fatalf("%s is not refused (error %v)\nSQL: %s\nas:  %q", why, err, text, strs)
	}
}

// TestC04_Ragged: a row with too few or too many values for the named columns is refused.
func TestC04_Ragged(t *testing.T) {
	prop(t, 25, func(t *rapid.T) {
		names := distinct(t, size(t, 1, 20), genName)
		rows := min(size(t, 1, 10), max(1, 3000/len(names)))
		bad := uniform(t, rows)
		parts := []Toks{}
		for r := 0; r < rows; r++ {
			n := len(names)
			if r == bad || chance(t, 10) && r > bad {
				switch {
				case n > 1 && chance(t, 50):
					n = 1 + uniform(t, n-1)
				default:
					n += 1 + uniform(t, 3)
				}
			}
			vs := []Toks{}
			for i := 0; i < n; i++ {
				vs = append(vs, tk(genLitOrBind(t).Src()))
			}
			parts = append(parts, paren(commaList(vs)))
		}
		text := cat(kw("INSERT INTO"), tk(genName(t).Src), paren(namesList(names)), kw("VALUES"), commaList(parts)).canonical()
		refused(t, text, fmt.Sprintf("row %d with another number of values", bad+1))
		note(true, text, fmt.Sprintf("bad-row-first:%v", bad == 0))
	})
}

// TestC04_Own: giving one inserted column another value changes no other value.
func TestC04_Own(t *testing.T) {
	prop(t, 25, func(t *rapid.T) {
		g := genInsert(t, Opt{})
		text := g.T.canonical()
		describe(text)
		_, stmts, err := parseModels(text)
		if err != nil || len(stmts) != 1 {
			t.Fatalf("valid SQL is not parsed: %v\nSQL: %s", err, text)
		}
		rows := stmts[0].(query.Insert).Values()
		r := uniform(t, len(rows))
		c := uniform(t, len(rows[r]))
		if err := rows[r][c].SetValue("another value"); err != nil {
			t.Fatalf("SetValue: %v\nSQL: %s", err, text)
		}
		n := 0
		for i, row := range stmts[0].(query.Insert).Values() {
			for j, col := range row {
				n++
				want := g.M.Rows[i][j].Val.Val
				if i == r && j == c {
					want = "another value"
				}
				if got := fmt.Sprint(col.Value()); got != want && !(col.Value() == nil && strings.EqualFold(want, "NULL")) {
					t.Fatalf("after setting row %d column %d, row %d column %d is %q, want %q\nSQL: %s", r, c, i, j, got, want, text)
				}
			}
		}
		note(n > 1, text, "own-values")
	})
}

// TestC05_Select and TestC05_Update: conditions of the other statements.
func TestC05_Select(t *testing.T) {
	faithful(t, 50, func(t *rapid.T, o Opt) Gen {
		g := Gen{M: Stmt{Kind: "SELECT"}}
		s, toks := o.selector(t)
		g.M.Sels = []Sel{s}
		val, _, tbl, _ := o.table(t)
		g.M.Tables = []string{val}
		g.T = cat(kw("SELECT"), toks, kw("FROM"), tbl)
		o.where(t, &g, 85)
		if chance(t, 30) {
			g.M.Limit = 1 + uint(uniform(t, 100))
			g.T = cat(g.T, kw("LIMIT"), tk(fmt.Sprint(g.M.Limit)))
		}
		g.Rich = g.M.Where != nil
		return g
	})
}

func TestC05_Update(t *testing.T) {
	faithful(t, 50, func(t *rapid.T, o Opt) Gen {
		g := Gen{M: Stmt{Kind: "UPDATE"}}
		val, _, tbl, _ := o.table(t)
		n, l := o.name(t), o.lit(t)
		g.M.Name = val
		g.M.Cols = []Col{{Name: n.Val, Val: &l}}
		g.T = cat(kw("UPDATE"), tbl, kw("SET"), tk(n.Src, "=", l.Src()))
		o.where(t, &g, 85)
		g.Rich = g.M.Where != nil
		return g
	})
}

// bare drops what does not belong to the content of a condition's text.
func bare(s string) string {
	return strings.NewReplacer(" ", "", "\n", "", "\"", "", "`", "", "<>", "!=").Replace(s)
}

// TestC05_Kept: whatever the condition is, it is kept or the statement is refused.
func TestC05_Kept(t *testing.T) {
	prop(t, 60, func(t *rapid.T) {
		cond := anyExpr(t, uniform(t, 3))
		for i, n := 0, pick(t, 0, 0, 1, 1, 2); i < n; i++ {
			cond += " " + pick(t, "AND", "OR") + " "
			if chance(t, 50) {
				_, toks := (Opt{}).cmp(t)
				cond += toks.spaced()
			} else {
				cond += anyExpr(t, uniform(t, 2))
			}
		}
		head := pick(t, "DELETE FROM t", "SELECT * FROM t", "UPDATE t SET a = 1", "SELECT a, COUNT(b) FROM s.t, u")
		text := head + " WHERE " + cond
		describe(text)
		stmts, err := sql.NewParser().ParseString(text)
		if err == nil {
			if len(stmts) != 1 {
				t.Fatalf("one statement is parsed as %d\nSQL: %s", len(stmts), text)
			}
			s, ok := stmts[0].(interface{ Where() query.Condition })
			if !ok {
				t.Fatalf("%T has no condition\nSQL: %s", stmts[0], text)
			}
			w := s.Where()
			if w == nil || !w.HasConditions() || w.Expr() == nil {
				t.Fatalf("the condition is lost\nSQL: %s\nas:  %s", text, stmts[0])
			}
			if got := bare(w.Expr().String()); got != bare(cond) {
				t.Fatalf("the condition is changed\nSQL: %s\ngot: %s", text, w.Expr())
			}
			if printed := stmts[0].String(); !strings.Contains(bare(printed), "WHERE"+bare(cond)) {
				t.Fatalf("the condition is not printed\nSQL: %s\nas:  %s", text, printed)
			}
		}
		note(true, text, fmt.Sprintf("kept:%v", err == nil))
	})
}

var unassignable = []string{
	"b", "f(b)", "(b + 1)", "(SELECT 1)", "NOT b", "CASE WHEN 1 THEN 2 END", "b || 'x'", "-b", "CAST(b AS INT)", "b & 1", "b < 1", "b = 1", "(1)",
	"COUNT(*)", "t.b", "b << 2", "b | 1", "b IS NULL", "b LIKE 'x'", "b IN (1, 2)", "EXISTS (SELECT 1)", "b >= 2", "b BETWEEN 1 AND 2",
}

// TestC06_Refused: an assignment without a representation refuses the statement.
func TestC06_Refused(t *testing.T) {
	prop(t, 15, func(t *rapid.T) {
		names := distinct(t, size(t, 1, 8), genName)
		bad := uniform(t, len(names))
		parts := []Toks{}
		expr := pick(t, unassignable...)
		for i, n := range names {
			src := genLit(t).Src()
			if i == bad {
				src = expr
			}
			parts = append(parts, tk(n.Src, "=", src))
		}
		toks := cat(kw("UPDATE"), tk(genName(t).Src), kw("SET"), commaList(parts))
		if chance(t, 30) {
			toks = cat(kw("UPDATE"), tk(genName(t).Src), kw("SET"), paren(namesList(names)), tk("="), paren(tk("1")))
		}
		if chance(t, 50) {
			_, cond := (Opt{}).cmp(t)
			toks = cat(toks, kw("WHERE"), cond)
		}
		text := toks.canonical()
		refused(t, text, "an assignment that cannot be represented")
		note(true, text, expr)
	})
}

// TestC06_Execute: the arithmetic of every assignment is executed with its own operator and operands.
func TestC06_Execute(t *testing.T) {
	prop(t, 40, func(t *rapid.T) {
		pool := vals(distinct(t, 1+uniform(t, 4), genPlainName))
		targets := distinct(t, size(t, 1, 8), genName)
		row := map[string]any{"other column": 1.0}
		num := map[string]float64{}
		for _, n := range pool {
			num[n] = float64(uniform(t, 2000)-1000) / 4
			row[n] = num[n]
			if chance(t, 30) {
				num[n] = float64(uniform(t, 100))
				row[n] = int(num[n])
			}
		}
		type assign struct {
			op   string
			args []string
			want float64
		}
		wants, parts := []assign{}, []Toks{}
		for _, n := range targets {
			a := assign{op: pick(t, "+", "-", "*", "/", "%")}
			left := pool[uniform(t, len(pool))]
			x, y := num[left], 0.0
			right := pool[uniform(t, len(pool))]
			if chance(t, 50) {
				y = float64(1 + uniform(t, 50))
				right = fmt.Sprint(y)
			} else {
				y = num[right]
			}
			if math.Trunc(y) == 0 && (a.op == "/" || a.op == "%") {
				a.op = "-"
			}
			a.args = []string{left, right}
			switch a.op {
			case "+":
				a.want = x + y
			case "-":
				a.want = x - y
			case "*":
				a.want = x * y
			case "/":
				a.want = x / y
			case "%":
				a.want = math.Mod(math.Trunc(x), math.Trunc(y))
			}
			wants = append(wants, a)
			parts = append(parts, tk(n.Src, "=", left, a.op, right))
		}
		text := cat(kw("UPDATE t SET"), commaList(parts)).canonical()
		describe(text)
		stmts, err := sql.NewParser().ParseString(text)
		if err != nil || len(stmts) != 1 {
			t.Fatalf("valid SQL is not parsed: %v\nSQL: %s", err, text)
		}
		cols := stmts[0].(query.Update).Columns()
		if len(cols) != len(wants) {
			t.Fatalf("%d assignments, want %d\nSQL: %s", len(cols), len(wants), text)
		}
		for _, i := range rapid.Permutation(seq(len(cols))).Draw(t, "order") {
			w := wants[i]
			f, ok := cols[i].Function()
			if !ok || !cols[i].IsFunction() {
				t.Fatalf("assignment %d has no function\nSQL: %s", i+1, text)
			}
			ex, err := f.Executor()
			if err != nil {
				t.Fatalf("assignment %d has no executor: %v\nSQL: %s", i+1, err, text)
			}
			if ex.Name() != w.op || !reflect.DeepEqual(ex.Arguments(), w.args) || ex.Type() != fn.ArithOperator {
				t.Fatalf("assignment %d is %s %q, want %s %q\nSQL: %s", i+1, ex.Name(), ex.Arguments(), w.op, w.args, text)
			}
			v, err := ex.Execute(row)
			if err != nil {
				t.Fatalf("assignment %d fails: %v\nSQL: %s\nrow: %v", i+1, err, text, row)
			}
			if got, ok := toFloat(v); !ok || !closeTo(got, w.want) {
				t.Fatalf("assignment %d gives %v, want %v\nSQL: %s\nrow: %v", i+1, v, w.want, text, row)
			}
		}
		note(len(wants) > 1, text, "execute")
	})
}
