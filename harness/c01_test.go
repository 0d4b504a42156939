package harness

import (
	"errors"
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/parser"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"pgregory.net/rapid"
)

// touch reads everything a statement offers; it must not panic.
func touch(s query.Statement) (kind string, text string) {
	_, _ = extract(s)
	switch x := s.(type) {
	case query.Select:
		x.HasAggregator()
		x.HasExecutor()
		sels := x.Selectors()
		sels.IsAsterisk()
		sels.HasFunction()
		_, _ = sels.Executors()
		_, _ = sels.Aggregators()
		_ = sels.Functions()
		_ = sels.Columns()
	case query.CreateTable:
		_ = x.Schema().Selectors()
		_, _ = x.Schema().LookupColumn("a")
		_, _ = x.Schema().LookupIndex("a")
	case query.Insert:
		for _, r := range x.Values() {
			_ = r.Copy()
			_ = r.ValueString()
		}
	case query.Update:
		for _, c := range x.Columns() {
			_ = c.Copy()
			_ = c.ValueString()
			_ = c.IsPlaceHolder()
		}
	}
	return s.StatementType().String(), s.String()
}

// parseTotal parses any text and checks that the outcome is well formed.
func parseTotal(t *rapid.T, text string) (n int, failed bool) {
	describe(text)
	stmts, err := sql.NewParser().ParseString(text)
	if err != nil {
		if len(stmts) != 0 {
			t.Fatalf("an error and %d statements are returned\nSQL: %q\nerr: %v", len(stmts), text, err)
		}
		if err.Error() == "" {
			t.Fatalf("the error has no message\nSQL: %q", text)
		}
		return 0, true
	}
	res := []string{}
	for i, s := range stmts {
		if s == nil {
			t.Fatalf("statement %d is nil\nSQL: %q", i, text)
		}
		kind, str := touch(s)
		if kind == "" || str == "" {
			t.Fatalf("statement %d has type %q and text %q\nSQL: %q", i, kind, str, text)
		}
		res = append(res, kind+"|"+str)
	}
	// The outcome is a function of the text.
	stmts2, err2 := sql.NewParser().ParseString(text)
	if err2 != nil {
		t.Fatalf("the second parse fails: %v\nSQL: %q", err2, text)
	}
	res2 := []string{}
	for _, s := range stmts2 {
		res2 = append(res2, s.StatementType().String()+"|"+s.String())
	}
	if strings.Join(res, "\n") != strings.Join(res2, "\n") {
		t.Fatalf("two parses differ\nSQL: %q\n1st: %q\n2nd: %q", text, res, res2)
	}
	return len(stmts), false
}

func TestC01_Bytes(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		var text string
		switch uniform(t, 3) {
		case 0:
			text = string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"))
		case 1:
			text = rapid.StringN(0, 40, -1).Draw(t, "text")
		default:
			var sb strings.Builder
			for i, n := 0, size(t, 0, 60); i < n; i++ {
				sb.WriteString(pick(t, stringPieces...))
			}
			text = sb.String()
		}
		_, failed := parseTotal(t, text)
		if (text == "" || text == ";") && !failed {
			t.Fatalf("the empty query %q is accepted", text)
		}
		note(len(text) > 2, fmt.Sprintf("%q", text), class("bytes", failed))
	})
}

func class(s string, failed bool) string {
	if failed {
		return s + "-rejected"
	}
	return s + "-accepted"
}

// vocabulary of the token soups.
var soup = func() []string {
	v := strings.Fields(keywordList)
	v = append(v, strings.Fields("( ) , . ; = == != <> < > <= >= + - * / % || | & << >> ~ ? ?1 $1 :a @x @@y a b t x1 \"q\" `r` [s] 'str' 'it''s' 1 2.5 .5 0x1F 1e9 NULL X'00' ! ^ # { } \\ ' \" `")...)
	v = append(v, "COUNT(*)", "SUM(a)", "VARCHAR(10)", "INT", "-- c\n", "/* c */")
	return v
}()

var heads = []string{
	"SELECT a FROM b", "SELECT", "INSERT INTO t", "INSERT INTO t VALUES", "UPDATE t SET a =", "DELETE FROM t WHERE", "CREATE TABLE t (", "ALTER TABLE t", "ALTER TABLE t ADD",
	"DROP TABLE", "CREATE INDEX i ON t (", "COPY t FROM", "WITH x AS (", "SELECT a FROM b WHERE", "SELECT a FROM b ORDER BY", "SELECT a FROM b LIMIT", "CREATE DATABASE", "USE", "VACUUM",
	"TRUNCATE", "BEGIN", "ROLLBACK", "SAVEPOINT", "PRAGMA", "ANALYZE", "EXPLAIN SELECT a FROM", "ATTACH", "REINDEX", "CREATE VIEW v AS SELECT", "CREATE TRIGGER",
	"SELECT a FROM b GROUP BY", "SELECT f(", "UPDATE t SET a = a +", "DELETE FROM", "VALUES (", "REPLACE INTO t",
}

func TestC01_TokenSoup(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		toks := []string{}
		if chance(t, 80) {
			toks = append(toks, pick(t, heads...))
		}
		for i, n := 0, size(t, 0, 25); i < n; i++ {
			toks = append(toks, pick(t, soup...))
		}
		text := strings.Join(toks, " ")
		_, failed := parseTotal(t, text)
		note(len(toks) > 1, text, class("soup", failed))
	})
}

func TestC01_Mutated(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		g := genStmt(t, Opt{})
		toks := append(Toks{}, g.T...)
		for i, n := 0, 1+uniform(t, 3); i < n && len(toks) > 0; i++ {
			k := uniform(t, len(toks))
			switch uniform(t, 6) {
			case 0: // delete
				toks = append(toks[:k:k], toks[k+1:]...)
			case 1: // duplicate
				toks = append(toks[:k+1:k+1], toks[k:]...)
			case 2: // replace
				toks[k] = Tok{pick(t, soup...), false}
			case 3: // insert
				toks = append(toks[:k:k], append(Toks{{pick(t, soup...), false}}, toks[k:]...)...)
			case 4: // swap
				j := uniform(t, len(toks))
				toks[k], toks[j] = toks[j], toks[k]
			case 5: // cut
				toks = toks[:k]
			}
		}
		text := toks.spaced()
		if chance(t, 20) && len(text) > 0 { // cut inside a token, also inside a character
			text = text[:uniform(t, len(text))]
		}
		_, failed := parseTotal(t, text)
		note(len(toks) > 1, text, g.M.Kind, class("mutated", failed), fmt.Sprintf("utf8-%v", utf8.ValidString(text)))
	})
}

// ---- statements of the whole grammar, also those without a representation

func anyExpr(t *rapid.T, depth int) string {
	if depth <= 0 {
		return pick(t, "a", "1", "'s'", "NULL", "?", "t.a", "s.t.a", "COUNT(*)", "@v", "@@v", "X'00'", "CURRENT_DATE", "-1", "b + 1", "f()", "TRUE")
	}
	e := func() string { return anyExpr(t, depth-1) }
	switch uniform(t, 18) {
	case 0:
		return e() + " || " + e()
	case 1:
		return "(" + e() + ")"
	case 2:
		return "CAST(" + e() + " AS INT)"
	case 3:
		return e() + " LIKE " + e()
	case 4:
		return e() + " IS NOT NULL"
	case 5:
		return e() + " BETWEEN 1 AND 2"
	case 6:
		return e() + " IN (" + e() + ", " + e() + ")"
	case 7:
		return e() + " IN (" + anySelect(t, depth-1) + ")"
	case 8:
		return "EXISTS (" + anySelect(t, depth-1) + ")"
	case 9:
		return "CASE WHEN " + e() + " THEN " + e() + " ELSE " + e() + " END"
	case 10:
		return "f(" + e() + ", " + e() + ")"
	case 11:
		return "SUM(a) OVER (PARTITION BY b ORDER BY c)"
	case 12:
		return "NOT " + e()
	case 13:
		return "a = 1 AND b = 2"
	case 14:
		return e() + " << " + e()
	case 15:
		return "COUNT(DISTINCT " + e() + ")"
	case 16:
		return "- " + e()
	}
	return "c <> 'x'"
}

func anySelect(t *rapid.T, depth int) string {
	s := "SELECT " + pick(t, "", "DISTINCT ", "ALL ") + pick(t, "*", "a", "t.*", anyExpr(t, depth), anyExpr(t, depth)+" AS x", "a, b")
	s += pick(t, "", " FROM t", " FROM t AS x", " FROM t, u", " FROM s.t", " FROM t JOIN u ON t.a = u.b", " FROM t LEFT JOIN u USING (a)", " FROM f(1)", " FROM t INDEXED BY i")
	if depth > 0 {
		s += pick(t, "", "", " FROM ("+anySelect(t, depth-1)+") AS q")
	}
	s += pick(t, "", " WHERE "+anyExpr(t, depth))
	s += pick(t, "", " GROUP BY "+anyExpr(t, 0)+pick(t, "", ", b")+pick(t, "", " HAVING "+anyExpr(t, 0)))
	s += pick(t, "", "", " UNION SELECT 1", " EXCEPT SELECT b FROM u", " UNION ALL VALUES (1)")
	s += pick(t, "", " ORDER BY "+anyExpr(t, 0)+pick(t, "", " DESC", " NULLS FIRST", " COLLATE x"))
	s += pick(t, "", " LIMIT "+anyExpr(t, 0)+pick(t, "", " OFFSET "+anyExpr(t, 0), ", "+anyExpr(t, 0)))
	return s
}

func anyStatement(t *rapid.T) string {
	e := func() string { return anyExpr(t, uniform(t, 3)) }
	switch uniform(t, 20) {
	case 0, 1, 2, 3:
		return pick(t, "", "", "WITH x AS (SELECT 1) ", "EXPLAIN ", "EXPLAIN QUERY PLAN ") + anySelect(t, uniform(t, 3))
	case 4:
		return "INSERT INTO t " + anySelect(t, uniform(t, 2))
	case 5:
		return "INSERT INTO t (a, b) VALUES (" + e() + ", " + e() + ")" + pick(t, "", " ON CONFLICT DO NOTHING", " RETURNING a", " ON CONFLICT (a) DO UPDATE SET a = 1")
	case 6:
		return "INSERT INTO t DEFAULT VALUES"
	case 7:
		return "UPDATE " + pick(t, "", "OR IGNORE ") + "t SET a = " + e() + pick(t, "", ", (b, c) = (1, 2)", ", d = "+e()) + pick(t, "", " FROM u") + pick(t, "", " WHERE "+e()) + pick(t, "", " RETURNING *", " LIMIT 1")
	case 8:
		return "DELETE FROM t " + pick(t, "", "AS x ", "INDEXED BY i ") + pick(t, "", "WHERE "+e()) + pick(t, "", " RETURNING *", " ORDER BY a LIMIT 1")
	case 9:
		return "CREATE TABLE t AS " + anySelect(t, 1)
	case 10:
		return "CREATE TABLE t (a, b " + pick(t, "", "INT", "DECIMAL(10,2)", "DOUBLE PRECISION", "foo bar") + pick(t, "", " CHECK ("+e()+")", " DEFAULT ("+e()+")", " GENERATED ALWAYS AS ("+e()+") STORED", " COLLATE x") +
			pick(t, "", ", UNIQUE (a)", ", PRIMARY KEY ("+e()+")", ", FOREIGN KEY (a) REFERENCES u (b) ON DELETE CASCADE", ", CONSTRAINT k CHECK ("+e()+")", ", KEY (a)", ", INDEX", ", PRIMARY KEY") + ")" + pick(t, "", " WITHOUT ROWID", " ENGINE=x")
	case 11:
		return "CREATE INDEX i ON t (" + e() + pick(t, "", " DESC", " COLLATE x") + ")" + pick(t, "", " WHERE "+e())
	case 12:
		return pick(t, "SAVEPOINT s", "RELEASE s", "ROLLBACK TO s", "PRAGMA a = 1", "ANALYZE", "REINDEX t", "ATTACH 'x' AS y", "DETACH y", "VACUUM x INTO y", "BEGIN TRANSACTION t", "DROP VIEW v", "DROP TRIGGER g")
	case 13:
		return "CREATE VIEW v AS " + anySelect(t, 1)
	case 14:
		return "CREATE TRIGGER g AFTER INSERT ON t BEGIN " + anySelect(t, 0) + "; END"
	case 15:
		return "CREATE VIRTUAL TABLE v USING m(a, b)"
	case 16:
		return "ALTER TABLE t " + pick(t, "ADD UNIQUE (a)", "ADD a", "ADD a INT CHECK ("+e()+")", "ADD CONSTRAINT k PRIMARY KEY (a)", "ADD CHECK ("+e()+") (a)", "ADD INDEX i (a)", "DROP PRIMARY", "RENAME a TO b")
	case 17:
		return "VALUES (" + e() + "), (" + e() + ")"
	case 18:
		return "DROP TABLE s.t, u CASCADE"
	}
	return "COPY t FROM " + pick(t, "x", "'y'", "\"z\"", "(w)", "STDIN") + pick(t, "", " WITH", " WITH CSV", " FORMAT BINARY")
}

func TestC01_WholeGrammar(t *testing.T) {
	prop(t, 60, func(t *rapid.T) {
		text := anyStatement(t)
		if chance(t, 10) {
			text += "; " + anyStatement(t)
		}
		_, failed := parseTotal(t, text)
		note(true, text, class("grammar", failed))
	})
}

// The empty query has its own error, whatever was parsed before.
func TestC01_Empty(t *testing.T) {
	prop(t, 5, func(t *rapid.T) {
		text := pick(t, "", ";")
		p := sql.NewParser()
		if chance(t, 50) {
			_, _ = p.ParseString(anyStatement(t))
		}
		stmts, err := p.ParseString(text)
		if !errors.Is(err, parser.ErrEmptyQuery) || len(stmts) != 0 {
			t.Fatalf("%q: %v, %v", text, stmts, err)
		}
		note(true, "empty "+text, "empty")
	})
}
