package harness

import (
	"fmt"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"pgregory.net/rapid"
)

// parseModels parses the text with a new parser and reads the statements.
func parseModels(text string) ([]Stmt, []query.Statement, error) {
	return parseModelsWith(sql.NewParser(), text)
}

func parseModelsWith(p sql.Parser, text string) ([]Stmt, []query.Statement, error) {
	stmts, err := p.ParseString(text)
	if err != nil {
		return nil, nil, err
	}
	out := []Stmt{}
	for _, s := range stmts {
		if s == nil {
			return nil, nil, fmt.Errorf("nil statement")
		}
		m, err := extract(s)
		if err != nil {
			return nil, nil, fmt.Errorf("extract: %w", err)
		}
		out = append(out, m)
	}
	return out, stmts, nil
}

// expectOne parses the text and compares the only statement with the model.
func expectOne(t *rapid.T, text string, want Stmt) query.Statement {
	describe(text)
	got, stmts, err := parseModels(text)
	if err != nil {
		t.Fatalf("valid SQL is not parsed: %v\nSQL: %s", err, text)
	}
	if len(got) != 1 {
		t.Fatalf("one statement is parsed as %d\nSQL: %s", len(got), text)
	}
	if !sameStmt(got[0], want) {
		t.Fatalf("parsed statement differs from the text\nSQL:  %s\ngot:  %s\nwant: %s", text, js(got[0]), js(want))
	}
	return stmts[0]
}
