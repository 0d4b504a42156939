package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"
	"testing"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"pgregory.net/rapid"
)

var brokenTexts = []string{
	"SELECT", "SELECT * FROM", "INSERT INTO t VALUES (", "CREATE TABLE", "DELETE t", "UPDATE t SET", "x", "", "SELECT * FROM t WHERE", "'abc", "DROP",
	"INSERT INTO t (a) VALUES (1, 2)", "INSERT INTO t (a) VALUES (1), (2, 3)", "SELECT a FROM t; DELETE", "WITH", ";;;", "@@@", ";", " ", "; ", "--", "CREATE TABLE t (", "ALTER TABLE t",
}

type outcome struct {
	models []Stmt
	prints []string
	failed bool
	msg    string
}

func outcomeOf(p sql.Parser, text string) (outcome, []query.Statement) {
	models, stmts, err := parseModelsWith(p, text)
	o := outcome{models: models, failed: err != nil}
	if err != nil {
		o.msg = err.Error()
	}
	for _, s := range stmts {
		o.prints = append(o.prints, s.String())
	}
	return o, stmts
}

func (o outcome) same(x outcome) bool {
	return o.failed == x.failed && o.msg == x.msg && js(o.models) == js(x.models) && js(o.prints) == js(x.prints)
}

func scriptText(t *rapid.T) string {
	switch uniform(t, 6) {
	case 0:
		return pick(t, brokenTexts...)
	case 1:
		g := genStmt(t, Opt{})
		text := g.T.canonical()
		return text[:uniform(t, len(text))]
	case 2:
		return genStmt(t, Opt{}).T.canonical() + "; " + genStmt(t, Opt{}).T.canonical()
	}
	return genStmt(t, Opt{}).T.canonical()
}

// scribble changes a returned statement, which is the caller's own.
func scribble(t *rapid.T, s query.Statement) bool {
	switch x := s.(type) {
	case query.Insert:
		for _, row := range x.Values() {
			for i, c := range row {
				if chance(t, 50) {
					_ = c.SetValue("scribbled")
				} else {
					row[i] = query.NewColumnWithName("scribbled")
				}
			}
		}
		return true
	case query.CreateTable:
		_ = x.Schema().AddColumn(query.NewColumnWithOptions(query.WithColumnName("scribbled"), query.WithColumnData(query.NewDataDef(query.TextType, -1))))
		_ = x.Schema().DropColumn(x.Schema().Columns()[0].Name())
		return true
	case query.Update:
		for _, c := range x.Columns() {
			_ = c.SetValue("scribbled")
		}
		return true
	case query.Select:
		for i := range x.From() {
			x.From()[i] = query.NewTableWith("scribbled")
		}
		for i := range x.Selectors() {
			x.Selectors()[i] = query.NewColumnWithName("scribbled")
		}
		return true
	case query.DropTable:
		for i := range x.Tables() {
			x.Tables()[i] = query.NewTableWith("scribbled")
		}
		return true
	}
	return false
}

// TestC15_Reuse: what a parser answers does not depend on what it parsed before,
// and statements it returned do not change afterwards.
func TestC15_Reuse(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		p := sql.NewParser()
		type kept struct {
			text  string
			o     outcome
			stmts []query.Statement
		}
		history := []kept{}
		fails, oks, changed := 0, 0, 0
		texts := []string{}
		for i, n := 0, size(t, 2, 10); i < n; i++ {
			text := scriptText(t)
			if len(texts) > 0 && chance(t, 20) {
				text = texts[uniform(t, len(texts))]
			}
			texts = append(texts, text)
			describe(strings.Join(texts, "\n"))
			got, stmts := outcomeOf(p, text)
			want, _ := outcomeOf(sql.NewParser(), text)
			if !got.same(want) {
				t.Fatalf("a used parser answers differently from a new one\nhistory: %q\nused: %v %s %s\nnew:  %v %s %s", texts, got.failed, got.msg, js(got.models), want.failed, want.msg, js(want.models))
			}
			if got.failed {
				fails++
			} else {
				oks++
			}
			if chance(t, 25) {
				for _, s := range stmts {
					if scribble(t, s) {
						changed++
					}
				}
				again, _ := outcomeOf(pick(t, p, sql.NewParser()), text)
				if !again.same(got) {
					t.Fatalf("changing a returned statement changes what its text means\nhistory: %q\nthen: %s\nnow:  %s", texts, js(got.models), js(again.models))
				}
				continue
			}
			history = append(history, kept{text, got, stmts})
		}
		for _, h := range history {
			for i, s := range h.stmts {
				m, err := extract(s)
				if err != nil || !sameStmt(m, h.o.models[i]) || s.String() != h.o.prints[i] {
					t.Fatalf("a returned statement changed after later calls\nSQL: %s\nnow: %s %v\nwas: %s", h.text, js(m), err, js(h.o.models[i]))
				}
			}
		}
		note(fails > 0 && oks > 0, js(texts), "history", fmt.Sprintf("changed:%v", changed > 0))
	})
}

// TestC15_Concurrent: parsers used at the same time do not disturb each other.
func TestC15_Concurrent(t *testing.T) {
	prop(t, 30, func(t *rapid.T) {
		n := 2 + uniform(t, 6)
		jobs := make([][]string, n)
		want := make([][]outcome, n)
		shared := make([][]query.Statement, n)
		for i := range jobs {
			for k, m := 0, 1+uniform(t, 4); k < m; k++ {
				jobs[i] = append(jobs[i], scriptText(t))
			}
		}
		describe(js(jobs))
		for i := range jobs {
			for _, text := range jobs[i] {
				o, stmts := outcomeOf(sql.NewParser(), text)
				want[i] = append(want[i], o)
				shared[i] = append(shared[i], stmts...)
			}
		}
		var wg sync.WaitGroup
		errs := make([]error, n)
		start := make(chan struct{})
		for i := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs[i] = fmt.Errorf("panic: %v", r)
					}
				}()
				<-start
				p := sql.NewParser()
				for k, text := range jobs[i] {
					got, _ := outcomeOf(p, text)
					if !got.same(want[i][k]) {
						errs[i] = fmt.Errorf("concurrent parsing of %q gives %v %s %s, want %v %s %s", text, got.failed, got.msg, js(got.models), want[i][k].failed, want[i][k].msg, js(want[i][k].models))
						return
					}
				}
				// Statements may be read from several goroutines.
				for _, stmts := range shared {
					for _, s := range stmts {
						_ = s.String()
						_ = s.StatementType()
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				t.Fatal(err)
			}
		}
		note(true, js(jobs), "concurrent")
	})
}

// freshAnswer is what a fresh process says about one text.
type freshAnswer struct {
	Failed bool
	Models []Stmt
	Prints []string
	Panic  string
}

func answerOf(text string) (a freshAnswer) {
	defer func() {
		if r := recover(); r != nil {
			a.Panic = fmt.Sprint(r)
		}
	}()
	o, _ := outcomeOf(sql.NewParser(), text)
	return freshAnswer{Failed: o.failed, Models: o.models, Prints: o.prints}
}

// parseChild is the fresh process: several goroutines start parsing at once, and
// nothing was parsed before.
func parseChild() int {
	var jobs [][][]byte
	if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR", err)
		return 4
	}
	out := make([][]freshAnswer, len(jobs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, text := range jobs[i] {
				out[i] = append(out[i], answerOf(string(text)))
			}
		}()
	}
	close(start)
	wg.Wait()
	if err := json.NewEncoder(os.Stdout).Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR", err)
		return 4
	}
	return 0
}

// TestC15_Fresh: a process that parsed nothing before answers as this one, which
// has parsed a lot, also when several goroutines start at once.
func TestC15_Fresh(t *testing.T) {
	prop(t, 10, func(t *rapid.T) {
		n := pick(t, 1, 2, 4, 6)
		jobs := make([][]string, n)
		want := make([][]freshAnswer, n)
		common := []string{}
		for k, m := 0, size(t, 1, 6); k < m; k++ {
			common = append(common, scriptText(t))
		}
		for i := range jobs {
			if n > 1 {
				jobs[i] = append(jobs[i], common...)
			}
			for k, m := 0, size(t, 1, 12); k < m; k++ {
				jobs[i] = append(jobs[i], scriptText(t))
			}
		}
		describe(js(jobs))
		for i := range jobs {
			want[i] = make([]freshAnswer, len(jobs[i]))
			for k := len(jobs[i]) - 1; k >= 0; k-- { // in another order
				want[i][k] = answerOf(jobs[i][k])
			}
		}
		raw := make([][][]byte, n) // as bytes, because a text may be cut inside a character
		for i := range jobs {
			for _, text := range jobs[i] {
				raw[i] = append(raw[i], []byte(text))
			}
		}
		stdout, failure := child(t, "parse", raw)
		if failure != "" {
			t.Fatalf("parsing in a fresh process fails: %s\n%s", failure, js(jobs))
		}
		var got [][]freshAnswer
		if err := json.Unmarshal(stdout, &got); err != nil || len(got) != n {
			t.Fatalf("HARNESS-ERROR the fresh process answers %.500q: %v", stdout, err)
		}
		for i := range jobs {
			for k, text := range jobs[i] {
				if js(got[i][k]) != js(want[i][k]) {
					t.Fatalf("a fresh process answers differently\nSQL: %q\nfresh: %s\nhere:  %s", text, js(got[i][k]), js(want[i][k]))
				}
			}
		}
		note(n > 1, js(jobs), "fresh")
	})
}
