package harness

import (
	"fmt"
	"strings"
	"testing"

	"github.com/cybergarage/go-sqlparser/sql"
	"pgregory.net/rapid"
)

// unsupported draws SQL that is well-formed in the dialects the parser reads, but
// says something that no statement of the query package can hold. Such a text is
// made from a generated statement and a clause it is given, so that only the
// clause stands between the text and acceptance.
func unsupported(t *rapid.T) (text, what string) {
	name := func() string { return genPlainName(t).Src }
	lit := func() string { return genLit(t).Src() }
	num := func() string { return fmt.Sprint(1 + uniform(t, 100)) }
	sub := func() string {
		return "SELECT " + pick(t, "1", "*", name()) + " FROM " + name() + pick(t, "", " WHERE "+name()+" = "+lit())
	}
	with := func() string {
		return "WITH " + pick(t, "", "RECURSIVE ") + name() + " AS (" + sub() + ") "
	}
	alias := func() string { return pick(t, "", " AS "+name(), " "+name()) }
	returning := func() string {
		return " RETURNING " + pick(t, "*", name(), name()+", "+name(), name()+" AS "+name())
	}
	where := func() string { return pick(t, "", " WHERE "+name()+" = "+lit()) }
	switch uniform(t, 6) {
	case 0, 1: // SELECT
		sels := pick(t, "*", name(), name()+", "+name(), "COUNT(*)")
		from, cond, group, having, window, order, limit := name()+alias(), where(), "", "", "", "", ""
		if chance(t, 30) {
			group = " GROUP BY " + name()
		}
		if chance(t, 30) {
			order = " ORDER BY " + name() + pick(t, "", " DESC")
		}
		if chance(t, 30) {
			limit = " LIMIT " + num()
		}
		head, tail := "", ""
		switch uniform(t, 16) {
		case 0:
			what, head = "with", with()
		case 1:
			what, tail = "compound", " "+pick(t, "UNION", "UNION ALL", "INTERSECT", "EXCEPT")+" "+sub()
		case 2:
			what, group = "having", " GROUP BY "+name()
			having = " HAVING " + name() + " > " + num()
		case 3:
			what, group = "group-by-two", " GROUP BY "+name()+", "+name()+pick(t, "", ", "+name())
		case 4:
			what = "join"
			op := pick(t, "JOIN", "INNER JOIN", "LEFT JOIN", "LEFT OUTER JOIN", "CROSS JOIN", "NATURAL JOIN")
			from = name() + " " + op + " " + name()
			if op != "NATURAL JOIN" && op != "CROSS JOIN" {
				from += " " + pick(t, "ON "+name()+" = "+lit(), "USING ("+name()+")")
			}
		case 5:
			what, from = "from-select", pick(t, "", name()+", ")+"("+sub()+")"+alias()
		case 6:
			what, from = "from-function", name()+"("+num()+")"+alias()
		case 7:
			what, window = "window", " WINDOW "+name()+" AS (ORDER BY "+name()+")"
		case 8, 9:
			terms := []string{}
			for i, n, at := 0, 1+uniform(t, 4), uniform(t, 4); i < n; i++ {
				term := name() + pick(t, "", " DESC", " ASC")
				if i == at%n {
					term += " NULLS " + pick(t, "FIRST", "LAST")
				}
				terms = append(terms, term)
			}
			what, order = "order-nulls", " ORDER BY "+strings.Join(terms, ", ")
		case 10:
			what, limit = "limit-expression", " LIMIT "+pick(t, "?", "-1", "0", "00", "0 OFFSET "+num(), num()+", 0", name()+" + "+num(), name(), "'x'", "NULL", "("+sub()+")", "18446744073709551616", num()+".5", num()+".25 OFFSET "+num(), num()+", "+num()+".75")
		case 11:
			what, limit = "offset-expression", " LIMIT "+num()+" OFFSET "+pick(t, "?", "-1", name()+" + "+num(), name(), "NULL", "18446744073709551616", num()+".5", "0.5")
		case 12:
			what, sels = "distinct-argument", sels+", "+pick(t, "COUNT", "SUM", "AVG", "MIN")+"(DISTINCT "+name()+")"
		case 13:
			what, sels = "filter", pick(t, "", sels+", ")+"COUNT(*) FILTER (WHERE "+name()+" = "+lit()+")"
		case 14:
			what, sels = "over", pick(t, "", sels+", ")+pick(t, "SUM", "MAX")+"("+name()+") OVER (ORDER BY "+name()+")"
		default:
			what, head = "explain", pick(t, "EXPLAIN ", "EXPLAIN QUERY PLAN ")
		}
		if tail != "" {
			order, limit = "", ""
		}
		return head + "SELECT " + pick(t, "", "", "DISTINCT ") + sels + " FROM " + from + cond + group + having + window + tail + order + limit, "select-" + what
	case 2: // INSERT
		cols, vals := []string{}, []string{}
		for i, n := 0, size(t, 1, 5); i < n; i++ {
			cols, vals = append(cols, name()), append(vals, lit())
		}
		head, verb, tail := "", "INSERT", ""
		list := " (" + strings.Join(cols, ", ") + ")"
		switch uniform(t, 9) {
		case 0:
			what, head = "with", with()
		case 1:
			what, verb = "conflict", "INSERT OR "+pick(t, "REPLACE", "ROLLBACK", "ABORT", "FAIL", "IGNORE")
		case 2:
			what, verb = "replace", "REPLACE"
		case 3:
			what, tail = "upsert", " ON CONFLICT "+pick(t, "DO NOTHING", "("+cols[0]+") DO NOTHING", "("+cols[0]+") DO UPDATE SET "+cols[0]+" = "+lit())
		case 4:
			what, tail = "returning", returning()
		case 5:
			return "INSERT INTO " + name() + pick(t, "", list) + " " + sub(), "insert-select"
		case 6:
			return "INSERT INTO " + name() + " DEFAULT VALUES", "insert-default"
		case 7:
			what, head = "explain", pick(t, "EXPLAIN ", "EXPLAIN QUERY PLAN ")
		default:
			what = "value-expression"
			if chance(t, 30) { // a comparison; without a list of names, name = value names the column
				op := pick(t, "<>", "!=", "<", ">", "<=", ">=")
				if chance(t, 50) {
					list = ""
				} else if chance(t, 60) {
					op = "="
				}
				vals[uniform(t, len(vals))] = name() + pick(t, "", " ") + op + pick(t, "", " ") + lit()
				break
			}
			vals[uniform(t, len(vals))] = pick(t, "f("+num()+")", name(), name()+" + "+num(), "("+sub()+")", "CASE WHEN "+name()+" = 1 THEN 2 END", "("+num()+")", "NOT "+num(), "-"+name())
		}
		return head + verb + " INTO " + name() + list + " VALUES (" + strings.Join(vals, ", ") + ")" + tail, "insert-" + what
	case 3: // UPDATE
		sets := []string{}
		for i, n := 0, size(t, 1, 5); i < n; i++ {
			sets = append(sets, name()+" = "+lit())
		}
		head, verb, from, tail := "", "UPDATE", "", ""
		switch uniform(t, 8) {
		case 0:
			what, head = "with", with()
		case 1:
			what, verb = "conflict", "UPDATE OR "+pick(t, "REPLACE", "ROLLBACK", "ABORT", "FAIL", "IGNORE")
		case 2:
			what, from = "from", " FROM "+pick(t, name(), name()+" AS "+name(), "("+sub()+")", name()+" JOIN "+name())
		case 3:
			what, tail = "returning", returning()
		case 4:
			what, tail = "limit", pick(t, "", " ORDER BY "+name())+" LIMIT "+num()
		case 5:
			what = "row-value"
			sets[uniform(t, len(sets))] = "(" + name() + ", " + name() + ") = (" + sub() + ")"
		case 6:
			what, head = "explain", pick(t, "EXPLAIN ", "EXPLAIN QUERY PLAN ")
		default:
			what = "value-expression"
			sets[uniform(t, len(sets))] = name() + " = " + pick(t, "f("+num()+")", name(), "("+sub()+")", "CASE WHEN "+name()+" = 1 THEN 2 END", "NOT "+num(), "-"+name(), name()+" || "+lit())
		}
		return head + verb + " " + name() + " SET " + strings.Join(sets, ", ") + from + where() + tail, "update-" + what
	case 4: // DELETE
		head, tail := "", ""
		switch uniform(t, 4) {
		case 0:
			what, head = "with", with()
		case 1:
			what, tail = "returning", returning()
		case 2:
			what, tail = "limit", pick(t, "", " ORDER BY "+name())+" LIMIT "+num()
		default:
			what, head = "explain", pick(t, "EXPLAIN ", "EXPLAIN QUERY PLAN ")
		}
		return head + "DELETE FROM " + name() + where() + tail, "delete-" + what
	}
	// statements that have no counterpart
	switch uniform(t, 18) {
	case 16:
		return "ALTER TABLE " + name() + " ADD " + pick(t, "", "CONSTRAINT "+name()+" ") + "UNIQUE" + pick(t, " ", "") + "(" + name() + pick(t, "", ", "+name()) + ")", "alter-unique"
	case 17:
		return "ALTER TABLE " + name() + " ADD " + pick(t, "", "COLUMN ") + name() + pick(t, " INT", " TEXT", " VARCHAR(8)", "") + pick(t, "", " NOT NULL") + " PRIMARY KEY" + pick(t, "", " ASC", " AUTOINCREMENT"), "alter-column-key"
	case 14:
		return "CREATE " + pick(t, "", "UNIQUE ") + "INDEX " + pick(t, "", "IF NOT EXISTS ") + name() + " ON " + name() + " (" + name() + ")" + pick(t, " WHERE "+name()+" = "+num(), " WHERE "+name()+" > "+num()+" AND "+name()+" = "+lit()), "partial-index"
	case 15:
		return "VACUUM " + pick(t, "", name()+" ") + "INTO '" + name() + "'", "vacuum-into"
	case 12:
		idx := randCase(t, pick(t, "KEY", "INDEX", "FULLTEXT KEY", "FULLTEXT INDEX", "SPATIAL KEY"))
		if strings.Contains(idx, " ") {
			idx += pick(t, "", " "+name())
		}
		return "ALTER TABLE " + name() + " ADD " + pick(t, "", "COLUMN ") + idx + pick(t, " ", "") + "(" + name() + ")", "alter-unnamed-index"
	case 13:
		idx := randCase(t, pick(t, "KEY", "INDEX", "FULLTEXT KEY", "FULLTEXT INDEX", "FOREIGN KEY"))
		fk := ""
		if strings.HasPrefix(strings.ToUpper(idx), "FO") {
			fk = " REFERENCES " + name() + " (" + name() + "), " + name() + " INT"
		}
		c := name()
		return "CREATE TABLE " + name() + " (" + c + " INT, " + pick(t, "", name()+" TEXT, ") + idx + pick(t, " ", "") + "(" + c + ")" + fk + ")", "create-unnamed-index"
	case 0:
		return "SAVEPOINT " + name(), "savepoint"
	case 1:
		return "RELEASE " + pick(t, "", "SAVEPOINT ") + name(), "release"
	case 2:
		return "ROLLBACK " + pick(t, "", "TRANSACTION ") + "TO " + pick(t, "", "SAVEPOINT ") + name(), "rollback-to"
	case 3:
		return "PRAGMA " + name() + pick(t, "", " = "+num(), "("+num()+")"), "pragma"
	case 4:
		return "ATTACH " + pick(t, "", "DATABASE ") + "'" + name() + "' AS " + name(), "attach"
	case 5:
		return "DETACH " + pick(t, "", "DATABASE ") + name(), "detach"
	case 6:
		return "ANALYZE" + pick(t, "", " "+name()), "analyze"
	case 7:
		return "REINDEX" + pick(t, "", " "+name()), "reindex"
	case 8:
		return "CREATE VIEW " + name() + " AS " + sub(), "create-view"
	case 9:
		return "DROP " + pick(t, "VIEW ", "TRIGGER ") + pick(t, "", "IF EXISTS ") + name(), "drop-view"
	case 10:
		return "CREATE TABLE " + name() + " AS " + sub(), "create-table-as"
	}
	return "CREATE INDEX " + name() + " ON " + name() + " (" + pick(t, name()+" + "+num(), "LOWER("+name()+")") + ")", "expression-index"
}

// TestC33_Refused: a statement or clause that cannot be represented is an error, alone and inside a script.
func TestC33_Refused(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		text, what := unsupported(t)
		if chance(t, 25) {
			before, after := genStmt(t, Opt{}), genStmt(t, Opt{})
			text = before.T.canonical() + "; " + text + "; " + after.T.canonical()
			what += "-in-script"
		}
		describe(text)
		stmts, err := sql.NewParser().ParseString(text)
		if err == nil || len(stmts) != 0 {
			strs := []string{}
			for _, s := range stmts {
				if s != nil {
					strs = append(strs, s.String())
				}
			}
			t.Fatalf("SQL that cannot be represented (%s) is not refused (error %v)\nSQL: %s\nas:  %q", what, err, text, strs)
		}
		if strings.TrimSpace(err.Error()) == "" {
			t.Fatalf("the error for %s has no text\nSQL: %s", what, text)
		}
		note(true, text, what)
	})
}
