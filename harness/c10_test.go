package harness

import (
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/cybergarage/go-sqlparser/sql/query"
	strutil "github.com/cybergarage/go-sqlparser/sql/util/strings"
	"pgregory.net/rapid"
)

// anyText draws any valid UTF-8 text.
func anyText(t *rapid.T) string {
	switch uniform(t, 4) {
	case 0:
		return rapid.StringN(0, 40, -1).Draw(t, "text")
	case 1:
		n := size(t, 0, 60)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(rapid.Rune().Draw(t, "rune"))
		}
		return sb.String()
	case 2:
		if chance(t, 10) {
			return strings.Repeat(stringValue(t), 1+uniform(t, 300))
		}
	}
	return stringValue(t)
}

// TestC10_Strings: a string literal carries exactly the quoted characters,
// wherever it stands, and its printed form carries them too.
func TestC10_Strings(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		v := anyText(t)
		if !utf8.ValidString(v) {
			t.Fatalf("generator: invalid text %q", v)
		}
		w := anyText(t)
		lit, other := Lit{v, true}, Lit{w, true}
		var m Stmt
		text := ""
		switch uniform(t, 5) {
		case 0:
			m = Stmt{Kind: "INSERT", Name: "t", Rows: [][]Cell{{{"a", lit}, {"b", other}}}}
			text = "INSERT INTO t (a, b) VALUES (" + lit.Src() + ", " + other.Src() + ")"
		case 1:
			m = Stmt{Kind: "INSERT", Name: "t", Rows: [][]Cell{{{"", lit}}, {{"", other}}}}
			text = "INSERT INTO t VALUES(" + lit.Src() + "),(" + other.Src() + ")"
		case 2:
			m = Stmt{Kind: "DELETE", Name: "t", Where: &Cond{Op: "OR", Left: &Cond{Op: "=", Col: "a", Lit: &lit}, Right: &Cond{Op: ">=", Col: "b", Lit: &other}}}
			text = "DELETE FROM t WHERE a=" + lit.Src() + " OR b >= " + other.Src()
		case 3:
			m = Stmt{Kind: "UPDATE", Name: "t", Cols: []Col{{Name: "a", Val: &lit}, {Name: "b", Val: &other}}, Where: &Cond{Op: "!=", Col: "a", Lit: &lit}}
			text = "UPDATE t SET a=" + lit.Src() + ", b = " + other.Src() + " WHERE a <> " + lit.Src()
		default:
			m = Stmt{Kind: "SELECT", Sels: []Sel{{Name: "*"}}, Tables: []string{"t"}, Where: &Cond{Op: "AND", Left: &Cond{Op: "<", Col: "a", Lit: &lit}, Right: &Cond{Op: "<=", Col: "b", Lit: &other}}}
			text = "SELECT * FROM t WHERE a<" + lit.Src() + " AND b<=" + other.Src()
		}
		s := expectOne(t, text, m)
		expectOne(t, s.String(), m)
		note(strings.ContainsAny(v, "'\"\\`;?$%\n") || len(v) != utf8.RuneCountInString(v), text, m.Kind)
	})
}

// TestC10_Numbers: a number, NULL, boolean or blob keeps its text and is never
// taken for a string, nor a string for it.
func TestC10_Numbers(t *testing.T) {
	prop(t, 60, func(t *rapid.T) {
		lit := genLit(t)
		same := Lit{lit.Val, !lit.Str}
		m := Stmt{Kind: "INSERT", Name: "t", Rows: [][]Cell{{{"a", lit}}}}
		text := "INSERT INTO t (a) VALUES (" + lit.Src() + ")"
		if !lit.Str {
			// The same text as a string is another value.
			m.Rows[0] = append(m.Rows[0], Cell{"b", same})
			text = "INSERT INTO t (a, b) VALUES (" + lit.Src() + ", " + same.Src() + ")"
		}
		s := expectOne(t, text, m)
		expectOne(t, s.String(), m)
		note(true, text, m.Kind)
	})
}

// TestC10_Quoting: quoting a text and unquoting it gives the text back, and a
// literal made of a text prints the quoted text.
func TestC10_Quoting(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		v := anyText(t)
		q := strutil.EscapeString(v)
		if got := strutil.UnEscapeString(q); got != v {
			t.Fatalf("quoted %q is %q, unquoted %q", v, q, got)
		}
		if got, want := query.NewLiteralWith(v, query.WithLiteralType(query.StringLiteral)).String(), quote(v); got != want {
			t.Fatalf("literal of %q prints %s, want %s", v, got, want)
		}
		// A typed Go value prints a literal that parses to its text.
		n := rapid.Int64().Draw(t, "n")
		if got := query.NewLiteralWith(n).String(); got != fmt.Sprint(n) {
			t.Fatalf("literal of %d prints %s", n, got)
		}
		note(strings.Contains(v, "'"), q, "quote")
	})
}

// TestC10_Names: a quoted name reads as the plain name does, with the text
// between its quotes in the place of the name.
func TestC10_Names(t *testing.T) {
	forms := []string{
		"INSERT INTO @ VALUES (1)", "INSERT INTO t (@) VALUES (1)", "INSERT INTO t (a, @, b) VALUES (1, 'x', NULL)",
		"DELETE FROM @", "DELETE FROM @ WHERE a = 1", "DELETE FROM t WHERE @ = 1", "DELETE FROM t WHERE a < 1 AND @ >= 'x'", "DELETE FROM t WHERE @ != 1 OR a > 2",
		"UPDATE @ SET a = 1", "UPDATE t SET @ = 1", "UPDATE t SET a = 'x', @ = 1 WHERE b = 1", "UPDATE t SET a = 1 WHERE @ <= 1", "UPDATE t SET a = @ + 1", "UPDATE t SET @ = a * 2",
		"SELECT @ FROM t", "SELECT a, @, b FROM t", "SELECT * FROM @", "SELECT * FROM a, @", "SELECT * FROM t WHERE @ = 'x'", "SELECT COUNT(@) FROM t", "SELECT a, MAX(@) FROM t GROUP BY @",
		"SELECT * FROM t GROUP BY @", "SELECT * FROM t ORDER BY @", "SELECT * FROM t ORDER BY a, @ DESC LIMIT 1",
		"CREATE TABLE @ (a INT)", "CREATE TABLE t (@ INT)", "CREATE TABLE t (a INT, @ VARCHAR(10), b TEXT)", "CREATE TABLE t (@ INT PRIMARY KEY)", "CREATE TABLE t (a INT, @ INT, PRIMARY KEY (@))",
		"CREATE TABLE t (a INT, @ INT, PRIMARY KEY (@, a))", "CREATE TABLE t (a INT, INDEX @ (a))", "CREATE TABLE t (@ INT, KEY k (@))",
		"CREATE INDEX @ ON t (a)", "CREATE INDEX i ON @ (a)", "CREATE INDEX i ON t (@)", "CREATE INDEX i ON t (a, @)", "DROP INDEX @", "DROP INDEX IF EXISTS @",
		"DROP TABLE @", "DROP TABLE a, @", "DROP TABLE IF EXISTS @, b", "TRUNCATE TABLE @", "TRUNCATE TABLE a, @",
		"ALTER TABLE @ ADD COLUMN a INT", "ALTER TABLE t ADD COLUMN @ INT", "ALTER TABLE @ DROP COLUMN a", "ALTER TABLE t DROP COLUMN @", "ALTER TABLE @ RENAME TO t", "ALTER TABLE t RENAME TO @",
		"ALTER TABLE t RENAME COLUMN @ TO a", "ALTER TABLE t RENAME COLUMN a TO @", "ALTER TABLE t ADD INDEX @ (a)", "ALTER TABLE t ADD INDEX i (@)", "ALTER TABLE t ADD PRIMARY KEY (@)",
		"CREATE DATABASE @", "CREATE DATABASE IF NOT EXISTS @", "DROP DATABASE @", "ALTER DATABASE @ RENAME TO d", "ALTER DATABASE d RENAME TO @", "USE @", "VACUUM @",
		"COPY @ FROM STDIN", "COPY t (@) FROM STDIN", "COPY t (a, @) FROM STDIN",
	}
	const ends = "'\"`()"
	prop(t, 100, func(t *rapid.T) {
		form := pick(t, forms...)
		q := pick(t, `"`, "`")
		content := ""
		switch uniform(t, 3) {
		case 0:
			content = quotedName(t)
		case 1:
			content = anyText(t)
		default:
			for i, n := 0, 1+uniform(t, 6); i < n; i++ {
				content += pick(t, stringPieces...)
			}
		}
		if chance(t, 10) {
			content = pick(t, "(", "((", "'", "()") + content + pick(t, ")", "", "'", "()")
		}
		content = strings.Map(func(r rune) rune {
			if r == '.' || r == 0 || r == 0xfffd || string(r) == q {
				return 'x'
			}
			return r
		}, content)
		want := strings.Trim(content, ends)
		if want == "" {
			content, want = "x y", "x y"
		}
		text := strings.ReplaceAll(form, "@", q+content+q)
		describe(text)
		base, _, err := parseModels(strings.ReplaceAll(form, "@", "zzname"))
		if err != nil || len(base) != 1 {
			t.Fatalf("a plain name is refused: %v\nSQL: %s", err, strings.ReplaceAll(form, "@", "zzname"))
		}
		got, _, err := parseModels(text)
		if err != nil || len(got) != 1 {
			t.Fatalf("a quoted name is refused: %v\nSQL: %s", err, text)
		}
		inner := strings.TrimSuffix(strings.TrimPrefix(js(want), `"`), `"`)
		exp := strings.ReplaceAll(js(base[0]), "zzname", inner)
		if js(got[0]) != exp {
			t.Fatalf("the quoted name is not the text between its quotes\nSQL: %s\ngot:  %s\nwant: %s", text, js(got[0]), exp)
		}
		note(want != strings.Map(plainRune, want), text, "name")
	})
}
