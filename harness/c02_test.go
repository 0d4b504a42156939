package harness

import (
	"strings"
	"testing"

	"github.com/cybergarage/go-sqlparser/sql"
	"pgregory.net/rapid"
)

// corrupt changes valid SQL so that no statement of the grammar is left.
func corrupt(t *rapid.T, g Gen) (Toks, string) {
	toks := append(Toks{}, g.T...)
	insert := func(k int, s string) Toks {
		return append(toks[:k:k], append(Toks{{s, false}}, toks[k:]...)...)
	}
	at := func(f func(string) bool) []int {
		out := []int{}
		for i, tok := range toks {
			if f(tok.S) {
				out = append(out, i)
			}
		}
		return out
	}
	is := func(ss ...string) func(string) bool {
		return func(s string) bool {
			for _, x := range ss {
				if s == x {
					return true
				}
			}
			return false
		}
	}
	for {
		switch uniform(t, 12) {
		case 10: // the text ends after a keyword that needs an operand
			if p := at(isClause); len(p) > 0 {
				if k := pick(t, p...); toks[k].Kw {
					return toks[:k+1], "cut-after-keyword"
				}
			}
		case 11: // a clause without its operands
			if p := at(isClause); len(p) > 0 {
				k := pick(t, p...)
				if !toks[k].Kw {
					continue
				}
				e := k + 1
				for e < len(toks) && !(toks[e].Kw && isNextClause(toks[e].S)) {
					e++
				}
				return append(toks[:k+1:k+1], toks[e:]...), "clause-emptied"
			}
		case 9: // a required keyword is missing
			if p := missing(g); len(p) > 0 {
				k := pick(t, p...)
				return append(toks[:k:k], toks[k+1:]...), "keyword-removed"
			}
		case 0: // unbalanced parentheses
			if p := at(is("(", ")")); len(p) > 0 {
				k := pick(t, p...)
				return append(toks[:k:k], toks[k+1:]...), "paren-removed"
			}
		case 1:
			return insert(len(toks), pick(t, ")", "(")), "paren-added"
		case 2: // characters of no token
			return insert(uniform(t, len(toks)+1), pick(t, "^", "\\", "{", "}", "#", "!", "é", "☃", "\x00")), "illegal-character"
		case 3: // dangling commas
			if p := at(isNextClause); len(p) > 0 && chance(t, 50) {
				if k := pick(t, p...); toks[k].Kw {
					return insert(k, ","), "dangling-comma-before-clause"
				}
			}
			if p := at(is(")")); len(p) > 0 {
				return insert(pick(t, p...), ","), "dangling-comma"
			}
		case 4:
			return insert(len(toks), ","), "trailing-comma"
		case 5: // cut after a token that needs an operand
			if p := at(is("(", ",", "=", "!=", "<>", "<", ">", "<=", ">=", ".")); len(p) > 0 {
				return toks[:pick(t, p...)+1], "cut"
			}
		case 6: // no statement starts like this
			toks[0] = Tok{pick(t, "SELEKT", "INSRT", "foo", "CREAT", "x1", "42", "'s'", "=", ")"), false}
			return toks, "bad-head"
		case 7:
			return insert(len(toks), pick(t, "42", "42 42", "= 1 1", "' unterminated", "\" unterminated", "/* unterminated")), "bad-tail"
		case 8:
			if p := at(is(",")); len(p) > 0 {
				return insert(pick(t, p...), ","), "double-comma"
			}
		}
	}
}

// isClause tells whether a keyword needs an operand, whatever the statement.
func isClause(s string) bool {
	switch s {
	case "WHERE", "BY", "SET", "INTO", "VALUES", "LIMIT", "OFFSET", "TO", "COLUMN", "ON", "DATABASE", "TABLE", "AND", "OR", "AS", "EXISTS":
		return true
	}
	return false
}

// isNextClause tells whether a keyword ends the operands before it.
func isNextClause(s string) bool {
	switch s {
	case "FROM", "WHERE", "GROUP", "ORDER", "LIMIT", "OFFSET", "SET", "VALUES", "TO", "ON":
		return true
	}
	return false
}

// missing lists the keywords without which nothing of the grammar is left.
func missing(g Gen) []int {
	out := []int{}
	if len(g.T) > 1 && g.M.Kind != "VACUUM" { // VACUUM ANALYZE t
		out = append(out, 0)
	}
	need := map[string]string{
		"INSERT": "INTO VALUES", "DELETE": "FROM WHERE", "UPDATE": "SET", "CREATE TABLE": "TABLE", "ALTER TABLE": "TABLE", "DROP TABLE": "TABLE",
		"CREATE INDEX": "INDEX ON", "DROP INDEX": "INDEX", "CREATE DATABASE": "DATABASE", "DROP DATABASE": "DATABASE", "ALTER DATABASE": "DATABASE TO",
		"COPY": "FROM", "SELECT": "BY",
	}
	for i, tok := range g.T {
		if tok.Kw && i > 0 {
			for _, w := range strings.Fields(need[g.M.Kind]) {
				if tok.S == w {
					out = append(out, i)
				}
			}
		}
	}
	return out
}

func TestC02_Rejected(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		g := genStmt(t, Opt{})
		toks, how := corrupt(t, g)
		text := toks.spaced()
		describe(text)
		stmts, err := sql.NewParser().ParseString(text)
		if err == nil {
			strs := []string{}
			for _, s := range stmts {
				strs = append(strs, s.String())
			}
			t.Fatalf("malformed SQL (%s) is accepted\nSQL: %q\nas:  %q", how, text, strs)
		}
		if len(stmts) != 0 {
			t.Fatalf("malformed SQL (%s) returns an error and statements\nSQL: %q", how, text)
		}
		note(true, text, how, g.M.Kind)
	})
}

// One malformed statement rejects the whole script, wherever it stands.
func TestC02_RejectedInScript(t *testing.T) {
	prop(t, 30, func(t *rapid.T) {
		n := 2 + uniform(t, 4)
		bad := uniform(t, n)
		parts := []string{}
		how := ""
		for i := 0; i < n; i++ {
			g := genStmt(t, Opt{})
			toks := g.T
			if i == bad {
				for {
					toks, how = corrupt(t, g)
					if s := toks.spaced(); !strings.Contains(s, "unterminated") {
						break
					}
				}
			}
			parts = append(parts, toks.spaced())
		}
		text := strings.Join(parts, " ; ")
		if chance(t, 20) { // all statements are well-formed, but two are not separated
			a, b := genStmt(t, Opt{}), genStmt(t, Opt{})
			for len(b.T) < 2 {
				b = genStmt(t, Opt{})
			}
			text, how = a.T.spaced()+"\n"+b.T.spaced(), "no-separator"
			if chance(t, 30) {
				text = genStmt(t, Opt{}).T.spaced() + " ; " + text
			}
		}
		describe(text)
		stmts, err := sql.NewParser().ParseString(text)
		if err == nil || len(stmts) != 0 {
			t.Fatalf("a script with a malformed statement (%s, number %d of %d) returns %d statements and error %v\nSQL: %q", how, bad+1, n, len(stmts), err, text)
		}
		note(true, text, "script-"+how)
	})
}

// TestC02_ClauseKeywords: a keyword that introduces or joins a clause is no name unless it is quoted.
func TestC02_ClauseKeywords(t *testing.T) {
	prop(t, 20, func(t *rapid.T) {
		word := pick(t, "SELECT", "FROM", "WHERE", "GROUP", "HAVING", "ORDER", "LIMIT", "UNION", "JOIN", "ON", "AS", "INTO", "VALUES", "SET", "TABLE",
			"AND", "OR", "NOT", "IN", "BY", "COLUMN", "EXISTS")
		w := randASCIICase(t, word)
		a, b := genPlainName(t).Src, genPlainName(t).Src
		form := pick(t, "SELECT %s FROM a", "SELECT b, %s FROM a", "SELECT * FROM %s", "SELECT * FROM a, %s", "SELECT * FROM a WHERE %s = 1", "SELECT * FROM a WHERE b = 1 AND %s < 2",
			"SELECT * FROM a GROUP BY %s", "SELECT * FROM a ORDER BY %s", "SELECT * FROM a ORDER BY b, %s DESC", "SELECT COUNT(%s) FROM a",
			"INSERT INTO %s VALUES (1)", "INSERT INTO a (%s) VALUES (1)", "INSERT INTO a (b, %s) VALUES (1, 2)",
			"UPDATE %s SET b = 1", "UPDATE a SET %s = 1", "UPDATE a SET b = 1, %s = 2", "UPDATE a SET b = %s + 1", "UPDATE a SET b = 1 WHERE %s = 1",
			"DELETE FROM %s", "DELETE FROM a WHERE %s = 1",
			"CREATE TABLE %s (b INT)", "CREATE TABLE a (%s INT)", "CREATE TABLE a (b INT, %s TEXT)", "CREATE TABLE a (b INT, PRIMARY KEY (%s))",
			"CREATE INDEX %s ON a (b)", "CREATE INDEX b ON %s (a)", "CREATE INDEX b ON a (%s)",
			"DROP TABLE %s", "DROP TABLE a, %s", "DROP INDEX %s", "ALTER TABLE %s RENAME TO a", "ALTER TABLE a RENAME TO %s", "ALTER TABLE a ADD %s INT", "ALTER TABLE a DROP %s",
			"ALTER TABLE a RENAME %s TO b", "ALTER TABLE a RENAME b TO %s",
			"CREATE DATABASE %s", "DROP DATABASE %s", "USE %s", "TRUNCATE TABLE %s",
			"CREATE TABLE a (b %s)", "CREATE TABLE a (b %s, a INT)", "ALTER TABLE a ADD b %s", "ALTER TABLE a ADD COLUMN b %s")
		if (word == "SET" || word == "NOT") && strings.Contains(form, "b %s") && strings.Contains(form, "TABLE a") {
			return // SET is a data type, NOT may belong to a constraint
		}
		if word == "COLUMN" && strings.Contains(form, " ADD ") {
			return // ADD COLUMN INT adds a column named INT
		}
		toks := strings.Fields(form)
		for i, x := range toks {
			x = strings.TrimRight(x, ",")
			rest := toks[i][len(x):]
			switch x {
			case "a":
				x = a
			case "b":
				x = b
			}
			toks[i] = x + rest
		}
		text := strings.ReplaceAll(strings.Join(toks, " "), "%s", w)
		describe(text)
		stmts, err := sql.NewParser().ParseString(text)
		if err == nil || len(stmts) != 0 {
			t.Fatalf("the clause keyword %s is taken for a name\nSQL: %s\nas:  %v", word, text, stmts)
		}
		note(true, text, "clause-keyword", word)
	})
}

// TestC02_TypeWords: the beginning of a statement is no word of a data type, however many words come before it.
func TestC02_TypeWords(t *testing.T) {
	prop(t, 10, func(t *rapid.T) {
		words := []string{}
		for i, n := 0, uniform(t, 7); i < n; i++ {
			words = append(words, genPlainName(t).Src)
		}
		next := pick(t, "SELECT * FROM ", "DELETE FROM ", "DROP TABLE ", "INSERT INTO ", "UPDATE ", "ALTER TABLE ", "CREATE TABLE ", "VACUUM ", "ROLLBACK ", "COMMIT ", "BEGIN ")
		head := pick(t, "ALTER TABLE a ADD COLUMN b ", "ALTER TABLE a ADD b ", "CREATE TABLE a (b ", "CREATE TABLE a (c INT, b ")
		text := head + strings.Join(words, " ") + " " + randASCIICase(t, next) + genPlainName(t).Src
		if strings.HasPrefix(head, "CREATE") {
			text += ")"
		}
		describe(text)
		stmts, err := sql.NewParser().ParseString(text)
		if err == nil || len(stmts) != 0 {
			t.Fatalf("the beginning of a statement is taken for a data type\nSQL: %s\nas:  %v", text, stmts)
		}
		note(len(words) > 0, text, "type-words")
	})
}

// TestC02_Short: no statement is as short as three characters, but for END.
func TestC02_Short(t *testing.T) {
	prop(t, 30, func(t *rapid.T) {
		b := []byte{}
		for i, n := 0, 1+uniform(t, 3); i < n; i++ {
			if chance(t, 25) {
				b = append(b, pick[byte](t, ';', ' ', '(', ')', '*', '\'', ',', '-', '/'))
			} else {
				b = append(b, byte(33+uniform(t, 94)))
			}
		}
		text := string(b)
		if s := strings.TrimSpace(text); s == "" || strings.HasPrefix(s, "--") || strings.EqualFold(s, "END") {
			return // nothing but spaces and comments
		}
		describe(text)
		if stmts, err := sql.NewParser().ParseString(text); err == nil || len(stmts) != 0 {
			t.Fatalf("%q gives %d statements and error %v", text, len(stmts), err)
		}
		note(strings.Contains(text, ";"), text, "short")
	})
}
